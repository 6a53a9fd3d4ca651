// Sources are recognised for what they are, whichever way the library is named.
import { libs } from "../lib/realm.mjs";
import { sequences } from "../lib/enum.mjs";

// ---- sources: each has make(probe) -> {source, send(t), log(state), current?}, lib, shared
// probe: {subs, dispatched, made[]} what happened to user-made objects
function counting(store, probe) {
	const { subscribe, dispatch } = store;
	store.subscribe = (l) => {
		probe.subs++;
		return subscribe(l);
	};
	store.dispatch = (a) => {
		probe.dispatched++;
		return dispatch(a);
	};
	probe.made.push(store);
	return store;
}
const reducer = (s = { log: "" }, a) => (a.type === "a" || a.type === "b" ? { log: s.log + a.type } : s);
const mkStore = (probe) => counting(libs.rtk.configureStore({ reducer, middleware: (d) => d({ serializableCheck: false, immutableCheck: false }) }), probe);
const mkSlice = (extra) =>
	libs.rtk.createSlice({
		name: "s",
		initialState: { log: "" },
		reducers: {
			a(s) {
				s.log += "a";
			},
			b(s) {
				s.log += "b";
			},
		},
		...extra,
	});
function watchObs(o, probe) {
	libs.mobx.onBecomeObserved(o, "log", () => probe.subs++);
	probe.made.push(o);
	return o;
}
const mkAuto = (probe) =>
	watchObs(
		libs.mobx.makeAutoObservable({
			log: "",
			a() {
				probe.dispatched++;
				this.log += "a";
			},
			b() {
				probe.dispatched++;
				this.log += "b";
			},
		}),
		probe,
	);
const mkObservable = (probe) =>
	watchObs(
		libs.mobx.observable({
			log: "",
			a() {
				probe.dispatched++;
				this.log += "a";
			},
			b() {
				probe.dispatched++;
				this.log += "b";
			},
		}),
		probe,
	);
class Counter {
	log = "";
	constructor(probe) {
		this.p = () => probe;
		libs.mobx.makeObservable(this, { log: libs.mobx.observable, a: libs.mobx.action, b: libs.mobx.action });
	}
	a() {
		this.p().dispatched++;
		this.log += "a";
	}
	b() {
		this.p().dispatched++;
		this.log += "b";
	}
}
const mkClass = (probe) => watchObs(new Counter(probe), probe);
// a store that carries method names other libraries use
const mkTrickyObs = (probe) =>
	watchObs(
		libs.mobx.makeAutoObservable({
			log: "",
			name: "s",
			actions: {},
			send() {},
			subscribe() {},
			a() {
				probe.dispatched++;
				this.log += "a";
			},
			b() {
				probe.dispatched++;
				this.log += "b";
			},
		}),
		probe,
	);
const mkTrickyStore = (probe) => Object.assign(mkStore(probe), { name: "s", reducer, send() {}, start() {} });
const machineDef = {
	context: { log: "" },
	on: {
		a: { actions: "add" },
		b: { actions: "add" },
	},
};
const mkMachine = () => libs.xstate.createMachine(machineDef, { actions: { add: libs.xstate.assign({ log: ({ context, event }) => context.log + event.type }) } });
const mkSetup = () =>
	libs.xstate
		.setup({ actions: { add: libs.xstate.assign({ log: ({ context, event }) => context.log + event.type }) } })
		.createMachine({ ...machineDef, initial: "x", states: { x: { initial: "y", states: { y: {} } } } });

const xlog = { ev: (t) => ({ type: t }), log: (s) => s.context.log, snap: (s) => s.context.log, cmd: (a, t) => a.send({ type: t }) };
const rlog = { ev: (t) => ({ type: t }), log: (s) => s.log, snap: (s) => s.log, cmd: (a, t) => a.dispatch({ type: t }) };
const slog = { ev: (t) => ({ type: `s/${t}` }), log: (s) => s.s.log, snap: (s) => s.s.log, cmd: (a, t) => a.dispatch({ type: `s/${t}` }) };
const mlog = { ev: (t) => ({ type: t }), log: (s) => s.log, snap: (s) => s.log, cmd: (a, t) => a[t]() };

// observables that are not plain objects
function watchWhole(o, probe) {
	libs.mobx.onBecomeObserved(o, () => probe.subs++);
	probe.made.push(o);
	return o;
}
const mkArray = (p) => watchWhole(libs.mobx.observable.array([]), p);
const mkMap = (p) => watchWhole(libs.mobx.observable.map(), p);
const mkSet = (p) => watchWhole(libs.mobx.observable.set(), p);
let ticket = 0; // keys and members are told apart
const alog = { ev: (t) => ({ type: "push", args: [t] }), log: (s) => s.join(""), snap: (s) => s.join(""), cmd: (a, t) => a.push(t), whole: (o) => o.join("") };
const plog = { ev: (t) => ({ type: "set", args: [ticket++, t] }), log: (s) => [...s.values()].join(""), snap: (s) => [...s.values()].join(""), cmd: (a, t) => a.set(ticket++, t), whole: (o) => [...o.values()].join("") };
const tlog = { ev: (t) => ({ type: "add", args: [`${t}${ticket++}`] }), log: (s) => [...s].map((x) => x[0]).join(""), snap: (s) => [...s].map((x) => x[0]).join(""), cmd: (a, t) => a.add(`${t}${ticket++}`), whole: (o) => [...o].join("") };

const blog = { ev: (t, now) => ({ type: "set", args: [now + t] }), log: (s) => s, snap: (s) => s, cmd: (a, t) => libs.mobx.runInAction(() => a.set(a.get() + t)), whole: (o) => o.get() };
const mkBox = (p) => watchWhole(libs.mobx.observable.box(""), p);
// one of the actors inside a running system
const mkChild = () => libs.xstate.createActor(libs.xstate.createMachine({ invoke: { id: "kid", systemId: "kid", src: mkMachine() } })).start();
const mkSpawned = () => libs.xstate.createActor(libs.xstate.createMachine({ context: ({ spawn }) => ({ kid: spawn(mkMachine()) }) })).start().getSnapshot().context.kid;
const mkRestored = () => {
	const first = libs.xstate.createActor(mkMachine()).start();
	const snapshot = JSON.parse(JSON.stringify(first.getPersistedSnapshot()));
	first.stop();
	return libs.xstate.createActor(mkMachine(), { snapshot }).start();
};
class OwnStore {
	#inner;
	constructor(p) {
		this.#inner = mkStore(p);
	}
	getState() {
		return this.#inner.getState();
	}
	dispatch(a) {
		return this.#inner.dispatch(a);
	}
	subscribe(l) {
		return this.#inner.subscribe(l);
	}
}
class SubCounter extends Counter {}

export const SOURCES = {
	parallelMachine: { lib: "xstate", shared: false, ...xlog, make: () => libs.xstate.createMachine({ ...machineDef, type: "parallel", states: { p: {}, q: {} } }, { actions: { add: libs.xstate.assign({ log: ({ context, event }) => context.log + event.type }) } }) },
	invokedActor: { lib: "xstate", shared: true, child: true, ...xlog, make: () => mkChild().getSnapshot().children.kid },
	systemActor: { lib: "xstate", shared: true, child: true, ...xlog, make: () => mkChild().system.get("kid") },
	spawnedActor: { lib: "xstate", shared: true, child: true, ...xlog, make: mkSpawned },
	restoredActor: { lib: "xstate", shared: true, ...xlog, make: mkRestored },
	legacyStore: { lib: "redux", shared: true, ...rlog, make: (p) => counting(libs.rtk.legacy_createStore(reducer), p) },
	frozenStore: { lib: "redux", shared: true, ...rlog, make: (p) => Object.freeze(mkStore(p)) },
	copiedStore: { lib: "redux", shared: true, ...rlog, make: (p) => Object.assign(Object.create(null), mkStore(p)) },
	ownStore: { lib: "redux", shared: true, ...rlog, make: (p) => new OwnStore(p) },
	proxyStore: { lib: "redux", shared: true, ...rlog, make: (p) => new Proxy(mkStore(p), {}) },
	legacyFactory: { lib: "redux", shared: false, factory: true, ...rlog, make: (p) => () => counting(libs.rtk.legacy_createStore(reducer), p) },
	boundFactory: { lib: "redux", shared: false, factory: true, ...rlog, make: (p) => mkStore.bind(null, p) },
	markedFactory: { lib: "redux", shared: false, factory: true, ...rlog, make: (p) => Object.assign(() => mkStore(p), { send() {}, subscribe() {}, getSnapshot() {}, start() {}, getState() {}, dispatch() {} }) },
	observableBox: { lib: "mobx", shared: true, ...blog, make: mkBox },
	boxFactory: { lib: "mobx", shared: false, factory: true, ...blog, make: (p) => () => mkBox(p) },
	subclassObservable: { lib: "mobx", shared: true, ...mlog, make: (p) => watchObs(new SubCounter(p), p) },
	plainObservable: {
		lib: "mobx",
		shared: true,
		...mlog,
		make: (p) => watchObs(libs.mobx.observable({ log: "", a() { p.dispatched++; this.log += "a"; }, b() { p.dispatched++; this.log += "b"; } }, {}, { proxy: false, deep: false }), p),
	},
	extendedObservable: {
		lib: "mobx",
		shared: true,
		...mlog,
		make: (p) => watchObs(libs.mobx.extendObservable({ a() { p.dispatched++; libs.mobx.runInAction(() => { this.log += "a"; }); }, b() { p.dispatched++; libs.mobx.runInAction(() => { this.log += "b"; }); } }, { log: "" }), p),
	},
	machine: { lib: "xstate", shared: false, ...xlog, make: () => mkMachine() },
	setupMachine: { lib: "xstate", shared: false, ...xlog, make: () => mkSetup() },
	providedMachine: { lib: "xstate", shared: false, ...xlog, make: () => mkMachine().provide({}) },
	actor: { lib: "xstate", shared: true, ...xlog, make: (p) => libs.xstate.createActor(mkMachine()).start() },
	idleActor: { lib: "xstate", shared: true, ...xlog, make: () => libs.xstate.createActor(mkMachine()) },
	transitionActor: { lib: "xstate", shared: true, ...xlog, make: () => libs.xstate.createActor(libs.xstate.fromTransition((s, e) => ({ log: s.log + (e.type.length === 1 ? e.type : "") }), { log: "" })).start() },
	slice: { lib: "redux", shared: false, ...slog, make: () => mkSlice() },
	selectorSlice: { lib: "redux", shared: false, ...slog, make: () => mkSlice({ selectors: { get: (s) => s.log } }) },
	lazySlice: { lib: "redux", shared: false, ...slog, make: () => mkSlice({ initialState: () => ({ log: "" }) }) },
	store: { lib: "redux", shared: true, ...rlog, make: mkStore },
	trickyStore: { lib: "redux", shared: true, ...rlog, make: mkTrickyStore },
	storeFactory: { lib: "redux", shared: false, ...rlog, factory: true, make: (p) => () => mkStore(p) },
	classicFactory: {
		lib: "redux",
		shared: false,
		factory: true,
		...rlog,
		make: (p) =>
			function create() {
				return mkStore(p);
			},
	},
	observable: { lib: "mobx", shared: true, ...mlog, make: mkObservable },
	autoObservable: { lib: "mobx", shared: true, ...mlog, make: mkAuto },
	classObservable: { lib: "mobx", shared: true, ...mlog, make: mkClass },
	trickyObservable: { lib: "mobx", shared: true, ...mlog, make: mkTrickyObs },
	obsFactory: { lib: "mobx", shared: false, factory: true, ...mlog, make: (p) => () => mkAuto(p) },
	observableFactory: { lib: "mobx", shared: false, factory: true, ...mlog, make: (p) => () => mkObservable(p) },
	observableArray: { lib: "mobx", shared: true, ...alog, make: mkArray },
	observableMap: { lib: "mobx", shared: true, ...plog, make: mkMap },
	observableSet: { lib: "mobx", shared: true, ...tlog, make: mkSet },
	arrayFactory: { lib: "mobx", shared: false, factory: true, ...alog, make: (p) => () => mkArray(p) },
	mapFactory: { lib: "mobx", shared: false, factory: true, ...plog, make: (p) => () => mkMap(p) },
	setFactory: { lib: "mobx", shared: false, factory: true, ...tlog, make: (p) => () => mkSet(p) },
	classFactory: { lib: "mobx", shared: false, factory: true, ...mlog, make: (p) => () => mkClass(p) },
};
const ROUTES = ["inferred", "named", "library"];

const NOT_SOURCES = {
	undef: () => undefined,
	null: () => null,
	zero: () => 0,
	number: () => 5,
	empty: () => "",
	string: () => "store",
	bool: () => true,
	symbol: () => Symbol("s"),
	object: () => ({}),
	array: () => [],
	date: () => new Date(0),
	map: () => new Map(),
	promise: () => Promise.resolve({}),
	plainState: () => ({ count: 1, inc() {} }),
	halfStore1: () => ({ getState() {}, dispatch() {} }),
	halfStore2: () => ({ getState() {}, subscribe() {} }),
	halfStore3: () => ({ dispatch() {}, subscribe() {} }),
	wordStore: () => ({ getState: 1, dispatch: 1, subscribe: 1 }),
	halfSlice1: () => ({ name: "x", reducer: (s = {}) => s }),
	halfSlice2: () => ({ name: "x", reducer: (s = {}) => s, actions: {} }),
	halfSlice3: () => ({ name: 1, reducer: (s = {}) => s, actions: {}, getInitialState: () => ({}) }),
	halfSlice4: () => ({ name: "x", reducer: (s = {}) => s, actions: null, getInitialState: () => ({}) }),
	halfActor1: () => ({ send() {}, subscribe() {}, getSnapshot() {} }),
	halfActor2: () => ({ send() {}, getSnapshot() {}, start() {} }),
	halfActor3: () => ({ subscribe() {}, getSnapshot() {}, start() {}, stop() {} }),
	halfMachine1: () => ({ transition() {} }),
	halfMachine2: () => ({ getInitialSnapshot() {} }),
	fnUndef: () => () => undefined,
	fnNull: () => () => null,
	fnObject: () => () => ({ count: 1 }),
	fnNumber: () => () => 1,
	fnPromise: () => () => Promise.resolve(1),
	fnAsync: () => async () => ({}),
	fnFn: () => () => () => ({}),
	fnHalfStore: () => () => ({ getState() {}, dispatch() {} }),
	fnMachine: () => () => mkMachine(),
	fnSlice: () => () => mkSlice(),
	fnActor: () => () => libs.xstate.createActor(mkMachine()),
	fnThrows: () => () => {
		throw new Error("boom");
	},
	fnThrowsString: () => () => {
		throw "boom";
	},
	fnThrowsUndefined: () => () => {
		throw undefined;
	},
	klass: () => class {},
};
const BAD_NAMES = ["vuex", "XState", "REDUX", "mob", "xstate ", "toString", "__proto__", 1, true];

export default {
	id: "C15",
	bounds: (tier) =>
		`${Object.keys(SOURCES).length} sources x 3 ways to name the library x every sequence of ${tier === "thorough" ? 4 : 3} operations on three elements under two tags; ${Object.keys(NOT_SOURCES).length} non-sources inferred and under each library name; ${BAD_NAMES.length} unknown library names x all sources`,
	assumptions: ["jsdom as the DOM", "redux toolkit, mobx and xstate as installed"],
	*cases(tier) {
		const ops = ["s0", "s1", "c0", "c1", "r0", "n"];
		for (const name of Object.keys(SOURCES)) for (const route of ROUTES) for (const seq of sequences(ops, tier === "thorough" ? 4 : 3)) yield { part: "use", name, route, seq };
		for (const name of Object.keys(NOT_SOURCES)) for (const as of [undefined, "xstate", "redux", "mobx"]) yield { part: "not", name, as };
		for (const name of Object.keys(SOURCES)) for (const as of BAD_NAMES) yield { part: "name", name, as };
	},
	exec(ctx, t) {
		const realm = ctx.realm(150);
		try {
			if (t.part === "use") use(ctx, realm, t);
			else reject(ctx, realm, t);
		} finally {
			realm.document.body.replaceChildren();
			realm.takeErrors();
			realm.takeLogs();
			realm.clock.pending.clear();
		}
	},
};

function use(ctx, realm, t) {
	const S = SOURCES[t.name];
	const probe = { subs: 0, dispatched: 0, made: [] };
	const source = S.make(probe);
	const core = t.route === "library" ? realm.api[S.lib]().igniteCore : realm.api.core().igniteCore;
	const fail = (m) => ctx.fail(`${m}\n${JSON.stringify(t)}`);
	const before = S.shared && S.lib !== "xstate" ? JSON.stringify(S.lib === "redux" ? source.getState() : libs.mobx.toJS(source)) : null;
	const keys = S.shared ? Object.keys(source).join() : null;
	const register = core({
		source,
		...(t.route === "named" ? { adapter: S.lib } : {}),
		states: (snap) => ({ shown: S.snap(snap) }),
		commands: ({ actor, host, emit }) => ({ cmd: (x) => S.cmd(actor, x), who: () => host, fire: (x) => emit("ping", x) }),
		events: (event) => ({ ping: event() }),
	});
	const untouched = (when) => {
		if (probe.subs) fail(`${when} subscribed to the user's ${S.lib} source`);
		if (probe.dispatched) fail(`${when} changed the user's ${S.lib} source`);
		if (before !== null && JSON.stringify(S.lib === "redux" ? source.getState() : libs.mobx.toJS(source)) !== before) fail(`${when} changed the user's state`);
		if (keys !== null && Object.keys(source).join() !== keys) fail(`${when} changed the user's object`);
	};
	untouched("recognising the source");
	const { jsx } = realm.api.jsxRuntime();
	const args = new Map();
	const tags = [realm.tag("k"), realm.tag("k")];
	const view = (a) => {
		args.set(a.who(), a);
		return jsx("p", { children: [S.log(a.state), "|", a.shown] });
	};
	register(tags[0], view);
	register(tags[1], view);
	untouched("registering a component");
	const els = [];
	const add = () => {
		const el = realm.document.createElement(tags[els.length % 2]);
		realm.document.body.append(el);
		els.push(el);
		logs.push("");
		gone.push(false);
	};
	const logs = [];
	const gone = [];
	let all = "";
	add();
	add();
	const bump = (i, x) => {
		if (S.shared) all += x;
		else logs[i] += x;
	};
	const check = (op) => {
		els.forEach((el, i) => {
			if (gone[i]) return;
			const want = S.shared ? all : logs[i];
			if (el.shadowRoot.textContent !== `${want}|${want}`) fail(`after ${op} element ${i} over a ${S.shared ? "shared" : "private"} source shows ${JSON.stringify(el.shadowRoot.textContent)} instead of ${JSON.stringify(`${want}|${want}`)}`);
		});
	};
	check("start");
	for (const op of t.seq) {
		const i = Number(op[1] ?? 0);
		if (op === "n") add();
		else if (op[0] === "r") {
			if (!gone[i]) els[i].remove();
			gone[i] = true;
		} else if (!gone[i]) {
			if (op[0] === "s") args.get(els[i]).send(S.ev("a", S.shared ? all : logs[i]));
			else args.get(els[i]).cmd("b");
			bump(i, op[0] === "s" ? "a" : "b");
		}
		check(op);
		ctx.step();
		ctx.state(`${t.name}|${t.route}|${all}|${logs}|${gone}`);
	}
	if (S.factory) {
		// each element has its own store; the one made for inference was left alone
		const idle = probe.made.length - els.length;
		if (idle < 0) fail("elements share a store although a factory was given");
		for (let k = 0; k < idle; k++) {
			const st = S.lib === "redux" ? probe.made[k].getState() : probe.made[k];
			if ((S.whole ? S.whole(st) : st.log) !== "") fail("a store made while recognising the factory was changed");
		}
	}
	const heard = [];
	const el = els.at(-1);
	el.addEventListener("ping", (e) => heard.push(e.detail));
	args.get(el).fire(7);
	if (heard.join() !== "7") fail(`declared events behave differently: heard ${heard}`);
	if (S.lib === "xstate" && S.shared && source.getSnapshot().status !== "active") fail("the user's actor is not active");
	if (S.lib === "xstate" && S.shared && !S.child) source.stop();
}

function reject(ctx, realm, t) {
	const doc = realm.document;
	const tag = realm.tag("z");
	const source = t.part === "not" ? NOT_SOURCES[t.name]() : SOURCES[t.name].make({ subs: 0, dispatched: 0, made: [] });
	if (source && typeof source.then === "function") source.then(() => {}, () => {});
	let rendered = 0;
	let stage = "igniteCore";
	let error;
	let threw = false;
	let el = null;
	const { jsx } = realm.api.jsxRuntime();
	realm.takeErrors();
	try {
		const register = realm.api.core().igniteCore({ source, ...(t.as === undefined ? {} : { adapter: t.as }) });
		stage = "registration";
		register(tag, () => {
			rendered++;
			return jsx("p", { children: "half" });
		});
		stage = "creation";
		new (realm.window.customElements.get(tag))();
	} catch (e) {
		threw = true;
		error = e;
	}
	const what = `${t.part === "not" ? `the non-source ${t.name}` : `source ${t.name}`}${t.as === undefined ? "" : ` named ${JSON.stringify(t.as)}`}`;
	if (!threw) return ctx.fail(`${what} was accepted\n${JSON.stringify(t)}`);
	// (a factory that throws something else when an element is created passes that on)
	if (!(error instanceof Error) && !(t.as !== undefined && t.name.startsWith("fnThrows"))) return ctx.fail(`${what} was rejected with ${String(error)}, not an error`);
	// without a library name, or with an unknown one, there is nothing to wait for: rejected before any tag exists
	if ((t.as === undefined || t.part === "name") && stage !== "igniteCore") return ctx.fail(`${what} was rejected only at ${stage}`);
	realm.takeErrors();
	el = doc.createElement(tag);
	doc.body.append(el);
	const dead = !rendered && !el.shadowRoot?.textContent;
	if (!dead) return ctx.fail(`${what} was rejected but an element shows something\n${JSON.stringify(t)}`);
	if (stage === "igniteCore" && realm.window.customElements.get(tag)) return ctx.fail(`${what} was rejected but its tag is registered`);
	ctx.step();
	ctx.state(`${what}|${stage}`);
}
