// Registrations (valid, duplicate, invalid, from one factory or several) and element uses, in every order.
import { libs } from "../lib/realm.mjs";

const VALID = ["arrow", "function", "boundfn", "object", "frozen", "instance", "proxyobj", "callable", "class", "subclass", "oldclass", "privclass"];
const INVALID = ["undefined", "null", "number", "string", "empty", "renderNot", "array", "nullproto", "renderString"];
const FACTORIES = ["iso", "shared", "slice", "store", "static"];

const regs = (factories, tags, kinds) => factories.flatMap((f) => tags.flatMap((t) => kinds.map((k) => `reg:${f}:${t}:${k}`)));

function* histories(ops, depth) {
	function* go(prefix) {
		if (prefix.length === depth) {
			yield prefix;
			return;
		}
		for (const op of ops) {
			if (op.startsWith("rm") && !prefix.some((p) => p.startsWith("el") || p.startsWith("parse"))) continue;
			if (op.startsWith("send") && !prefix.some((p) => p.startsWith("el") || p.startsWith("parse"))) continue;
			yield* go([...prefix, op]);
		}
	}
	yield* go([]);
}

function* cases(tier) {
	const thorough = tier === "thorough";
	const one = [...regs(FACTORIES, [0], [...VALID, ...INVALID]), "el:0", "parse:0", "send:0", "foreign:0"];
	for (let n = 1; n <= 2; n++) for (const h of histories(one, n)) yield { ops: h };
	const two = [...regs(["iso", "shared"], [0, 1], ["arrow", "object", "class", "null", "empty"]), "el:0", "el:1", "send:0", "send:1", "rm:0", "foreign:0"];
	for (let n = 1; n <= (thorough ? 4 : 3); n++) for (const h of histories(two, n)) yield { ops: h };
	const small = [...regs(["iso", "shared"], [0], ["object", "class", "undefined"]), ...regs(["iso", "shared"], [1], ["privclass"]), "el:0", "el:1", "send:0", "rm:0"];
	for (const h of histories(small, thorough ? 5 : 4)) yield { ops: h };
	for (const h of histories(["reg:slice:0:class", "reg:slice:0:object", "reg:slice:1:class", "reg:store:0:class", "reg:store:1:instance", "reg:store:1:null", "el:0", "el:1", "send:0", "send:1"], thorough ? 5 : 4)) yield { ops: h };
	// components without a source
	for (const h of histories(["reg:static:0:class", "reg:static:1:object", "reg:static:0:null", "reg:iso:1:arrow", "el:0", "parse:1", "send:0", "rm:0"], thorough ? 6 : 5)) yield { ops: h };
}

export default {
	id: "C22",
	bounds: (tier) => `${VALID.length} kinds of valid and ${INVALID.length} of invalid renderers x ${FACTORIES.length} kinds of factory: all histories of length 2 on one tag; length ${tier === "thorough" ? 4 : 3} on two tags with elements created, parsed before registration, updated and removed, foreign definitions in between; length ${tier === "thorough" ? 5 : 4} over reduced alphabets; after every step all elements are compared and at the end every tag gets a new element and a state change`,
	assumptions: ["a class registered for shared state may use one instance for all elements of the tag"],
	*cases(tier) {
		yield* cases(tier);
	},
	exec(ctx, t) {
		const realm = ctx.realm(250);
		const api = realm.api;
		const { document: doc } = realm;
		const { igniteElementFactory, StateScope } = api.index();
		const { jsx } = api.jsxRuntime();
		realm.takeErrors();
		const tags = [realm.tag("c"), realm.tag("c")];
		const shared = { n: 0, ls: new Set() };
		let serial = 0;
		let problem = null;
		const views = new Map(); // token -> facts about the render that produced it

		// ---- state: one counter per isolated element, one per shared factory
		const plain = (cell) => {
			const own = new Map();
			return {
				subscribe(l) {
					const on = () => l({ n: cell.n });
					own.set(l, on);
					cell.ls.add(on);
					l({ n: cell.n });
					return { unsubscribe: () => cell.ls.delete(on) };
				},
				send() {
					cell.n++;
					for (const on of [...cell.ls]) on();
				},
				getState: () => ({ n: cell.n }),
				stop() {
					for (const on of own.values()) cell.ls.delete(on);
				},
			};
		};
		const slice = () => libs.rtk.createSlice({ name: "c", initialState: { n: 0 }, reducers: { inc: (s) => void s.n++ } });
		let store;
		const makers = {
			iso: () => igniteElementFactory(() => plain({ n: 0, ls: new Set() })),
			shared: () => igniteElementFactory(() => plain(shared), { scope: StateScope.Shared }),
			slice: () => api.redux().igniteCore({ source: slice() }),
			static: () => api.core().igniteCore(),
			store: () => {
				store = libs.rtk.configureStore({ reducer: (s = { n: 0 }, a) => (a.type === "inc" ? { n: s.n + 1 } : s) });
				return api.redux().igniteCore({ source: store, cleanup: false });
			},
		};
		const factories = {};
		const factory = (f) => (factories[f] ??= makers[f]());
		const isShared = (f) => f === "shared" || f === "store" || f === "static";

		// ---- renderers: each render leaves a token in the view
		const show = (id, args, { receiver = true, instance = null } = {}) => {
			const token = `${id}/${++serial}`;
			views.set(token, { id, instance, receiver });
			lastSend.set(token, args.send);
			return jsx("p", { title: token, children: `${(args.state.c ?? args.state).n ?? `${Object.keys(args.state)}-`}` });
		};
		const lastSend = new Map();
		const make = (kind, id) => {
			switch (kind) {
				case "arrow":
					return (args) => show(id, args);
				case "function":
					return function (args) {
						return show(id, args);
					};
				case "boundfn": {
					const me = { me: id };
					return function (args) {
						return show(id, args, { receiver: this === me });
					}.bind(me);
				}
				case "object": {
					const o = {
						render(args) {
							return show(id, args, { receiver: this === o });
						},
					};
					return o;
				}
				case "frozen": {
					const o = Object.freeze({
						helper: () => id,
						render(args) {
							return show(this.helper(), args, { receiver: this === o });
						},
					});
					return o;
				}
				case "instance": {
					class R {
						#id = id;
						render(args) {
							return show(this.#id, args);
						}
					}
					return new R();
				}
				case "proxyobj":
					return Object.create({
						id,
						render(args) {
							return show(this.id, args);
						},
					});
				case "callable":
					return Object.assign((args) => show(id, args), {
						render: () => "wrong",
					});
				case "class":
					return class {
						constructor() {
							this.id = id;
						}
						render(args) {
							return show(this.id, args, { instance: this });
						}
					};
				case "subclass": {
					class Base {
						constructor() {
						}
						render(args) {
							return show(this.id(), args, { instance: this });
						}
					}
					return class extends Base {
						id() {
							return id;
						}
					};
				}
				case "oldclass": {
					function Old() {
						this.id = id;
					}
					Old.prototype.render = function (args) {
						return show(this.id, args, { instance: this });
					};
					return Old;
				}
				case "privclass":
					// private members, and a method that counts on this very instance
					return class {
						#id = id;
						#renders = 0;
						constructor() {
						}
						render(args) {
							this.#renders++;
							return show(this.#id, args, { instance: this });
						}
						static render() {
							return "static";
						}
					};
				case "undefined":
					return undefined;
				case "null":
					return null;
				case "number":
					return 5;
				case "string":
					return "render";
				case "empty":
					return {};
				case "renderNot":
					return { render: true };
				case "array":
					return [() => "x"];
				case "nullproto":
					return Object.create(null);
				case "renderString":
					return { render: "() => 1" };
			}
			throw new Error(kind);
		};
		// ---- model
		const comps = [null, null]; // {id, f, kind}
		const elements = []; // {el, tag, n (isolated), live}
		const fail = (msg, i) => ctx.fail(msg, { trace: { ...t, ops: t.ops.slice(0, i + 1) } });
		const countOf = (e) => (comps[e.tag].f === "static" ? "-" : comps[e.tag].f === "shared" ? shared.n : comps[e.tag].f === "store" ? store.getState().n : e.n);
		const check = () => {
			const owners = new Map();
			for (const e of elements) {
				const c = comps[e.tag];
				if (!c || c.foreign) {
					if (e.el.shadowRoot) return `an element of an unregistered tag has content`;
					continue;
				}
				const p = e.el.shadowRoot?.querySelector("p");
				if (!p) return `an element registered with ${c.kind} (${c.f}) shows ${JSON.stringify(e.el.shadowRoot?.textContent)}`;
				const fact = views.get(p.title);
				if (!fact) return `an element registered with ${c.kind} (${c.f}) shows ${p.title}`;
				if (fact.id !== c.id) return `an element registered with ${c.kind} (${c.f}) shows the view of another registration`;
				if (!fact.receiver) return `the ${c.kind} renderer (${c.f}) was called with another receiver`;
				if (p.textContent !== String(e.live ? countOf(e) : e.last)) return `an element registered with ${c.kind} (${c.f}) shows ${p.textContent} instead of ${e.live ? countOf(e) : e.last}`;
				if (fact.instance && !isShared(c.f)) {
					const first = (e.instance ??= fact.instance);
					if (first !== fact.instance) return "an element changed its renderer instance";
					if (owners.has(fact.instance) && owners.get(fact.instance) !== e) return `two private-state elements use one ${c.kind} instance`;
					owners.set(fact.instance, e);
				}
				if (e.live) e.last = countOf(e);
			}
			const errors = realm.takeErrors();
			if (errors.length) return `an error was reported: ${errors[0]?.message ?? errors[0]}`;
			return null;
		};
		const register = (f, tag, kind) => {
			const id = `r${++serial}`;
			const wasTaken = comps[tag] !== null;
			const before = realm.window.customElements.get(tags[tag]);
			let error = null;
			try {
				factory(f)(tags[tag], make(kind, id));
			} catch (e) {
				error = e;
			}
			const now = realm.window.customElements.get(tags[tag]);
			if (wasTaken || INVALID.includes(kind)) {
				if (!error) return `registering ${wasTaken ? "an already used tag" : "an invalid renderer"} (${kind}, ${f}) did not throw`;
				if (!(error instanceof Error) && !(error instanceof realm.window.Error)) return `registering (${kind}) threw ${error}`;
				if (now !== before) return `a refused registration (${kind}, ${f}) changed the registry`;
				return null;
			}
			if (error) return `registering ${kind} (${f}) threw ${error?.message ?? error}`;
			if (!now) return `registering ${kind} (${f}) registered nothing`;
			comps[tag] = { id, f, kind };
			return null;
		};
		const create = (tag, by) => {
			let el;
			if (by === "parse") {
				const box = doc.createElement("div");
				doc.body.append(box);
				box.innerHTML = `<${tags[tag]}></${tags[tag]}>`;
				el = box.firstChild;
			} else {
				el = doc.createElement(tags[tag]);
				doc.body.append(el);
			}
			elements.push({ el, tag, n: 0, live: true });
		};
		const send = (tag) => {
			const e = elements.find((x) => x.tag === tag && x.live && comps[tag] && !comps[tag].foreign);
			if (!e) return;
			const p = e.el.shadowRoot.querySelector("p");
			lastSend.get(p.title)({ type: comps[tag].f === "slice" ? "c/inc" : "inc" });
			e.n++;
		};

		for (let i = 0; i < t.ops.length; i++) {
			const [op, a, b, c] = t.ops[i].split(":");
			ctx.step();
			try {
				if (op === "reg") problem = register(a, Number(b), c);
				else if (op === "el" || op === "parse") create(Number(a), op);
				else if (op === "send") send(Number(a));
				else if (op === "rm") {
					const e = elements.find((x) => x.tag === Number(a) && x.live);
					if (e) {
						e.el.remove();
						e.live = false;
						if (!comps[e.tag]) elements.splice(elements.indexOf(e), 1);
					}
				} else if (op === "foreign" && comps[Number(a)] === null) {
					realm.window.customElements.define(tags[Number(a)], class extends realm.window.HTMLElement {});
					comps[Number(a)] = { foreign: true };
				}
				problem ??= check();
			} catch (e) {
				problem = `threw ${e?.stack ?? e}`;
			}
			ctx.state(JSON.stringify([comps.map((x) => x && [x.f, x.kind, x.foreign]), elements.map((e) => [e.tag, e.n, e.live])]));
			if (problem) {
				fail(`after ${t.ops[i]}: ${problem}`, i);
				break;
			}
		}
		if (!problem) {
			try {
				for (const tag of [0, 1])
					if (comps[tag] && !comps[tag].foreign) {
						create(tag, "script");
						problem ??= check();
						send(tag);
						problem ??= check();
						create(tag, "parse");
						problem ??= check() ?? (register("iso", tag, "arrow") || check());
					}
			} catch (e) {
				problem = `threw ${e?.stack ?? e}`;
			}
			if (problem) fail(`after the history: ${problem}`, t.ops.length - 1);
		}
		ctx.outcome(JSON.stringify(comps.map((x) => x && [x.f, x.kind])));
		doc.body.replaceChildren();
		realm.takeErrors();
		realm.takeLogs();
	},
};
