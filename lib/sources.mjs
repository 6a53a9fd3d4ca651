// The state sources of the lifecycle worlds. Every source keeps one string, `log`,
// to which each event appends "<type><payload>", so the log is the full history
// of what was applied, in order.
import { libs } from "./realm.mjs";

export const KINDS = {
	machine: { lib: "xstate", shared: false, timers: true },
	slice: { lib: "redux", shared: false },
	storeFactory: { lib: "redux", shared: false },
	obsFactory: { lib: "mobx", shared: false },
	custom: { lib: "custom", shared: false },
	actor: { lib: "xstate", shared: true, timers: true },
	store: { lib: "redux", shared: true },
	observable: { lib: "mobx", shared: true },
	customShared: { lib: "custom", shared: true },
};
export const ISOLATED = Object.keys(KINDS).filter((k) => !KINDS[k].shared);
export const SHARED = Object.keys(KINDS).filter((k) => KINDS[k].shared);
export const DELAY = 10;

const strip = (e) => {
	if (e && typeof e === "object" && "target" in e && "bubbles" in e) return { dom: e.type };
	return JSON.parse(JSON.stringify(e));
};

/** What one source instance received and how it is observed. */
export class Probe {
	constructor() {
		this.events = []; // [sourceId, event] in order of application
		this.raw = [];
		this.ids = 0;
		this.live = new Map(); // sourceId -> number of running resources
		this.subs = new Map(); // sourceId -> active subscriptions
		this.stops = new Map(); // sourceId -> stop calls (custom adapters)
		this.stores = new Map();
	}
	received(id, e) {
		this.raw.push(e);
		this.events.push([id, strip(e)]);
	}
	bump(map, id, by) {
		map.set(id, (map.get(id) ?? 0) + by);
	}
}

export function makeMachine(probe) {
	const { createMachine, assign, fromCallback } = libs.xstate;
	const apply = (t) =>
		assign({
			log: ({ context, event }) => context.log + t + (event.p ?? ""),
		});
	const note = ({ context, event }) => probe.received(context.id, event);
	return createMachine({
		context: () => ({ log: "", id: probe.ids++ }),
		initial: "idle",
		invoke: {
			src: fromCallback(({ input }) => {
				probe.bump(probe.live, input.id, 1);
				return () => probe.bump(probe.live, input.id, -1);
			}),
			input: ({ context }) => ({ id: context.id }),
		},
		on: {
			a: { actions: [note, apply("a")] },
			b: { actions: [note, apply("b")] },
			send: { actions: [note, apply("s")] },
			// back to the very beginning; the end of the machine
			z: { actions: [note, assign({ log: "" })] },
			f: { target: ".over", actions: [note, apply("f")] },
		},
		states: {
			idle: { on: { d: { target: "waiting", actions: [note] } } },
			waiting: { after: { [DELAY]: { target: "idle", actions: [apply("t")] } } },
			over: { type: "final" },
		},
	});
}

function countingStore(store, probe, id) {
	const subscribe = store.subscribe;
	store.subscribe = (l) => {
		probe.bump(probe.subs, id, 1);
		const off = subscribe(l);
		let done = false;
		return () => {
			if (!done) probe.bump(probe.subs, id, -1);
			done = true;
			off();
		};
	};
	return store;
}

export function makeSlice(probe) {
	const { createSlice } = libs.rtk;
	const reducer = (t) => (state, action) => {
		probe.received(null, action);
		state.log += t + (action.payload ?? "");
	};
	const initialState = { log: "" };
	const reset = (_, action) => {
		probe.received(null, action);
		return initialState;
	};
	return createSlice({ name: "m", initialState, reducers: { a: reducer("a"), b: reducer("b"), z: reset } });
}

export function makeStore(probe) {
	const { configureStore } = libs.rtk;
	const id = probe.ids++;
	const initial = { log: "" };
	const reducer = (state = initial, action) => {
		const t = action.type;
		if (t !== "a" && t !== "b" && t !== "z") return state;
		probe.received(id, action);
		if (t === "z") return initial;
		return { log: state.log + t + (action.payload ?? "") };
	};
	const store = configureStore({ reducer, middleware: (d) => d({ serializableCheck: false, immutableCheck: false }) });
	probe.stores.set(id, store);
	return countingStore(store, probe, id);
}

export function makeObservable(probe) {
	const { makeAutoObservable, onBecomeObserved, onBecomeUnobserved } = libs.mobx;
	const id = probe.ids++;
	const note = (type, args) => probe.received(id, { type, args: args.map((a) => (a && typeof a === "object" && "type" in a ? strip(a) : a)) });
	// the log lives inside a nested observable: changes below the top level count as well
	const store = makeAutoObservable(
		{
			deep: { log: "" },
			get log() {
				return this.deep.log;
			},
			a(...args) {
				note("a", args);
				this.deep.log += `a${args[0] ?? ""}`;
			},
			b(...args) {
				note("b", args);
				this.deep.log += `b${args[0] ?? ""}`;
			},
			z(...args) {
				note("z", args);
				this.deep = { log: "" };
			},
			send(...args) {
				note("send", args);
				this.deep.log += "s";
			},
		},
		{},
		{ autoBind: false },
	);
	onBecomeObserved(store.deep, "log", () => probe.subs.set(id, 1));
	onBecomeUnobserved(store.deep, "log", () => probe.subs.set(id, 0));
	probe.stores.set(id, store);
	return store;
}

/** a user-written store, and adapters over it */
export function makePlain(probe) {
	const id = probe.ids++;
	const plain = {
		id,
		log: "",
		listeners: new Set(),
		apply(e) {
			probe.received(id, e);
			if (e.type === "z") plain.log = "";
			else plain.log += (e.type === "send" ? "s" : e.type) + (e.p ?? "");
			for (const l of [...plain.listeners]) if (plain.listeners.has(l)) l();
		},
	};
	probe.stores.set(id, plain);
	return plain;
}
export function plainAdapter(plain, probe) {
	const own = new Map();
	let stopped = false;
	let last = null;
	const state = () => ({ log: plain.log });
	return {
		plain,
		subscribe(l) {
			if (stopped) throw new Error("subscribe on a stopped adapter");
			const on = () => l(state());
			own.set(l, on);
			plain.listeners.add(on);
			probe.bump(probe.subs, plain.id, 1);
			l(state());
			return {
				unsubscribe() {
					if (own.delete(l)) {
						plain.listeners.delete(on);
						probe.bump(probe.subs, plain.id, -1);
					}
				},
			};
		},
		send(e) {
			if (!stopped) plain.apply(e);
		},
		getState: () => (stopped ? last : state()),
		stop() {
			probe.bump(probe.stops, plain.id, 1);
			this.stopCount = (this.stopCount ?? 0) + 1;
			if (stopped) return;
			stopped = true;
			last = state();
			for (const on of own.values()) {
				plain.listeners.delete(on);
				probe.bump(probe.subs, plain.id, -1);
			}
			own.clear();
		},
	};
}

/** how to talk to a source of this kind, and the igniteCore options for it */
export function dialect(kind) {
	const lib = KINDS[kind].lib;
	if (lib === "xstate")
		return {
			event: (t, p) => (p === undefined ? { type: t } : { type: t, p }),
			logOf: (state) => state.log,
			snapLog: (snap) => snap.context.log,
			command: (actor, t, p) => actor.send(p === undefined ? { type: t } : { type: t, p }),
			current: (actor) => actor.state.log,
			mode: (actor) => actor.state.value,
			modeOf: (state) => state.value,
			snapMode: (snap) => snap.value,
			received: (t, p) => (p === undefined ? { type: t } : { type: t, p }),
		};
	if (lib === "redux")
		return {
			event: (t, p) => ({ type: kind === "slice" ? `m/${t}` : t, ...(p === undefined ? {} : { payload: p }) }),
			logOf: (state) => (kind === "slice" ? state.m.log : state.log),
			snapLog: (snap) => (kind === "slice" ? snap.m.log : snap.log),
			command: (actor, t, p) => actor.dispatch({ type: kind === "slice" ? `m/${t}` : t, ...(p === undefined ? {} : { payload: p }) }),
			current: (actor) => (kind === "slice" ? actor.getState().m.log : actor.getState().log),
			received: (t, p) => ({ type: kind === "slice" ? `m/${t}` : t, ...(p === undefined ? {} : { payload: p }) }),
		};
	if (lib === "mobx")
		return {
			event: (t, p) => ({ type: t, args: p === undefined ? [] : [p] }),
			logOf: (state) => state.deep.log,
			snapLog: (snap) => snap.deep.log,
			command: (actor, t, p) => actor[t](...(p === undefined ? [] : [p])),
			current: (actor) => actor.deep.log,
			received: (t, p) => ({ type: t, args: p === undefined ? [] : [p] }),
		};
	return {
		event: (t, p) => (p === undefined ? { type: t } : { type: t, p }),
		logOf: (state) => state.log,
		snapLog: (snap) => snap.log,
		command: (actor, t, p) => actor.send(p === undefined ? { type: t } : { type: t, p }),
		current: (actor) => actor.getState().log,
		received: (t, p) => (p === undefined ? { type: t } : { type: t, p }),
	};
}

/** creates the long-lived or blueprint source; returns {source, outside(t,p), currentLog(), watch(fn)} */
export function createSource(kind, probe) {
	const d = dialect(kind);
	switch (kind) {
		case "machine":
			return { source: makeMachine(probe) };
		case "slice":
			return { source: makeSlice(probe) };
		case "storeFactory":
			return { source: () => makeStore(probe) };
		case "obsFactory":
			return { source: () => makeObservable(probe) };
		case "custom":
			return { createAdapter: () => plainAdapter(makePlain(probe), probe), adapters: true };
		case "actor": {
			const actor = libs.xstate.createActor(makeMachine(probe)).start();
			const subscribe = actor.subscribe.bind(actor);
			let mine = false;
			actor.subscribe = (...args) => {
				const s = subscribe(...args);
				if (mine) return s;
				probe.bump(probe.subs, 0, 1);
				let done = false;
				return {
					unsubscribe() {
						if (!done) probe.bump(probe.subs, 0, -1);
						done = true;
						s.unsubscribe();
					},
				};
			};
			return {
				source: actor,
				outside: (t, p) => actor.send(d.event(t, p)),
				log: () => actor.getSnapshot().context.log,
				healthy: () => actor.getSnapshot().status === "active",
				watch(fn) {
					mine = true;
					const s = actor.subscribe(() => fn());
					mine = false;
					return () => s.unsubscribe();
				},
				dispose: () => actor.stop(),
			};
		}
		case "store": {
			const store = makeStore(probe);
			return {
				source: store,
				outside: (t, p) => store.dispatch(d.event(t, p)),
				log: () => store.getState().log,
				healthy: () => true,
				watch(fn) {
					const off = store.subscribe(fn);
					probe.bump(probe.subs, 0, -1);
					return () => {
						probe.bump(probe.subs, 0, 1);
						off();
					};
				},
			};
		}
		case "observable": {
			const store = makeObservable(probe);
			const { reaction, getObserverTree } = libs.mobx;
			return {
				source: store,
				outside: (t, p) => d.command(store, t, p),
				log: () => store.log,
				healthy: () => true,
				observers: () => getObserverTree(store.deep, "log").observers?.length ?? 0,
				watch(fn) {
					return reaction(() => store.deep.log, () => fn());
				},
			};
		}
		case "customShared": {
			const plain = makePlain(probe);
			const adapters = [];
			return {
				createAdapter: () => {
					const a = plainAdapter(plain, probe);
					adapters.push(a);
					return a;
				},
				adapterList: adapters,
				outside: (t, p) => plain.apply(d.event(t, p)),
				log: () => plain.log,
				healthy: () => true,
				watch(fn) {
					const l = () => fn();
					plain.listeners.add(l);
					return () => plain.listeners.delete(l);
				},
			};
		}
		default:
			throw new Error(kind);
	}
}
