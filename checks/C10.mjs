// Each event handed to a connected element reaches its own source once, unaltered, in order.
import { libs } from "../lib/realm.mjs";
import { count, histories, play, setupRenderer, usable } from "../lib/world.mjs";
import { pairs, playPair } from "../lib/pairs.mjs";
import { dialect, KINDS } from "../lib/sources.mjs";
import { configs, reactive, special } from "./C06.mjs";

const CHANNELS = ["send", "in", "ls", "fs"];

function* ops(m) {
	for (let i = 0; i < m.n; i++) {
		if (!usable(m, i)) break;
		const e = m.els[i];
		if (e.st === "none") {
			yield ["parse", i, "P"];
			if (i > 0) yield ["create", i];
		}
		if (e.st === "new" || (e.st === "off" && m.shared)) yield ["ins", i, "P"];
		if (e.st === "on") {
			yield ["rm", i];
			if (m.shared) yield ["ins", i, e.place === "P" ? "Q" : "P"];
			for (const ch of i === 0 ? CHANNELS : ["send", "ls"]) yield [ch, i, ch === "ls" ? "b" : "a"];
			if (KINDS[m.cfg.kind].lib !== "redux" && i === 0) {
				yield ["plain", 0];
				yield ["plain", 0, "custom"];
			}
		}
	}
}

class Made {
	get twice() {
		return 2;
	}
}
const PAYLOADS = [undefined, 0, "", false, null, "text", 7, { x: { y: [1, "2", null] }, z: "" }, [1, [2]], { type: "inner", detail: { send: 1 } }];

function expected(kind, model) {
	const d = dialect(kind);
	return model.events.map(([, t, p]) => {
		if (t === "send") return KINDS[kind].lib === "mobx" ? { type: "send", args: [] } : { dom: "send" };
		return d.received(t, p);
	});
}

function check(world, model) {
	const got = world.probe.events.map(([, e]) => e);
	const want = expected(world.cfg.kind, model);
	const g = JSON.stringify(got);
	const w = JSON.stringify(want);
	if (g !== w) return `the source received ${g}, the elements were given ${w}`;
	for (let i = 0; i < world.n; i++) {
		if (!world.els[i] || model.els[i].st !== "on") continue;
		if (world.truth(i) !== model.logOf(i)) return `the source of element ${i} holds ${JSON.stringify(world.truth(i))}, its events were ${JSON.stringify(model.logOf(i))}`;
	}
	return null;
}

export default {
	id: "C10",
	bounds: (tier) => `9 source kinds x 2 renderers, 2 elements: every history of ${tier === "thorough" ? 6 : 5} operations (insert, move, remove, re-insert, four send channels, plain event); every send performed inside a notification or render; every payload of ${PAYLOADS.length} shapes over every channel before and after a reconnect, in plain objects and in instances; every ordered pair of ${ANY.length} kinds of events (falsy ones, strings, numbers, functions, DOM events, send events with details) for user-written adapters; every ordered pair of ${INITS.length} makes of send events (bubbling, composed, cancelable, already prevented, subclassed); renderers that keep sending, and followers of the source that answer each change with an event; MobX actions of ${Object.keys(ACTIONS).length} signatures with ${ARGS.length} argument lists; pairs of components one inside the other; elements inside elements, batches, final states, changes before insertion`,
	assumptions: ["jsdom as the DOM", "a plain DOM event is not a legal Redux action, so that case is explored for the other libraries"],
	*cases(tier) {
		const thorough = tier === "thorough";
		yield* pairs(thorough ? 5 : 4, thorough ? ["jsx", "lit"] : ["jsx"]);
		yield* special(thorough ? 5 : 4, { families: ["nest", "batch", "final", "pre"], renderers: thorough ? ["jsx", "lit"] : ["jsx"] });
		for (const cfg of configs()) {
			const D = (thorough ? 6 : 5) - (cfg.renderer === "lit" ? 1 : 0);
			for (const o of histories(cfg, D, (m) => ops(m))) yield { cfg, ops: o };
			for (const t of reactive(cfg, thorough ? 2 : 1)) yield t;
			if (KINDS[cfg.kind].lib === "custom")
				for (const ch of CHANNELS) for (const a of ANY.keys()) for (const b of ANY.keys()) for (const re of KINDS[cfg.kind].shared ? [false, true] : [false]) yield { cfg, any: [a, b], ch, re };
			// send events of every make
			for (const ch of ["send", "in"]) for (const a of INITS) for (const b of INITS) if (ch === "send" || (a.bubbles && a.composed && b.bubbles && b.composed)) yield { cfg, init: [a, b], ch };
			if (["actor", "store", "observable"].includes(cfg.kind)) for (const ch of ["send", "in", "arg"]) for (const n of [2, 3, 4, 6, 9, 20]) for (const both of [false, true]) yield { cfg, relay: n, ch, both };
			// events sent from renders that were caused by events
			for (const chain of [2, 3, 5, 9]) for (const o of histories({ ...cfg, chain }, 2, (m) => ops(m), { prefix: [["parse", 0, "P"]] })) if (!o.some((x) => x[0] === "plain")) yield { cfg: { ...cfg, chain }, ops: o };
			if (KINDS[cfg.kind].lib === "mobx") for (const action of Object.keys(ACTIONS)) for (const args of ARGS.keys()) for (const ch of CHANNELS) for (const raw of [false, true]) yield { cfg, mobxArgs: true, action, args, ch, raw };
			for (const p of PAYLOADS.keys()) for (const ch of [...CHANNELS, "cmd"]) {
				yield { cfg, payload: p, ch, re: false };
				if (ch !== "cmd" && KINDS[cfg.kind].lib !== "redux") yield { cfg, payload: p, ch, re: false, cls: true };
				if (KINDS[cfg.kind].shared) yield { cfg, payload: p, ch, re: true };
			}
		}
	},
	exec(ctx, t) {
		if (t.relay) return relay(ctx, t);
		if (t.init) return initKinds(ctx, t);
		if (t.mobxArgs) return mobxArgs(ctx, t);
		if (t.cfg?.chain) return play(ctx, t, chainCheck);
		if (t.pair) return playPair(ctx, t);
		if ("payload" in t) return payload(ctx, t);
		if ("any" in t) return anything(ctx, t);
		play(ctx, t, check);
	},
};

const INITS = [];
for (const bubbles of [false, true]) for (const composed of [false, true]) for (const cancelable of [false, true]) for (const prevented of cancelable ? [false, true] : [false]) for (const sub of [false, true]) INITS.push({ bubbles, composed, cancelable, prevented, sub });

function initKinds(ctx, t) {
	const d = dialect(t.cfg.kind);
	play(ctx, { ...t, ops: [["parse", 0, "P"], ["tick"]] }, (world, model, op) => {
		if (op[0] !== "tick") return null;
		const el = world.els[0];
		const win = world.realm.window;
		class Special extends win.CustomEvent {}
		t.init.forEach(({ prevented, sub, ...init }, k) => {
			const e = new (sub ? Special : win.CustomEvent)("send", { ...init, detail: d.event("a", k) });
			if (prevented) e.preventDefault();
			(t.ch === "send" ? el : el.shadowRoot.querySelector(".go")).dispatchEvent(e);
		});
		const got = JSON.stringify(world.probe.events.map(([, e]) => e));
		const want = JSON.stringify(t.init.map((_, k) => d.received("a", k)));
		return got === want ? null : `two send events made with ${JSON.stringify(t.init)} over ${t.ch}: the source received ${got}, expected ${want}`;
	});
}

// somebody else follows the shared source and answers each change with a further event through the element
function relay(ctx, t) {
	const d = dialect(t.cfg.kind);
	play(ctx, { ...t, ops: [["parse", 0, "P"], ["parse", 1, "P"], ["tick"]] }, (world, model, op) => {
		if (op[0] !== "tick") return null;
		const win = world.realm.window;
		let k = 0;
		const send = () => {
			const el = world.els[t.both ? k % 2 : 0];
			const e = d.event("a", k++);
			if (t.ch === "arg") world.infoOf(el).lastArgs.send(e);
			else (t.ch === "send" ? el : el.shadowRoot.querySelector(".go")).dispatchEvent(new win.CustomEvent("send", { bubbles: true, composed: true, detail: e }));
		};
		const src = world.src.source;
		const before = world.probe.events.length;
		let known = world.src.log();
		const on = () => {
			const log = world.src.log();
			if (log === known) return;
			known = log;
			if (k < t.relay) send();
		};
		const off = KINDS[t.cfg.kind].lib === "mobx" ? libs.mobx.autorun(() => (src.log, libs.mobx.untracked(on))) : src.subscribe(on);
		send();
		if (typeof off === "function") off();
		else off.unsubscribe();
		const got = JSON.stringify(world.probe.events.slice(before).map(([, e]) => e));
		const want = JSON.stringify(Array.from({ length: t.relay }, (_, j) => d.received("a", j)));
		return got === want ? null : `a follower of the source answered each change with an event: the source received ${got}, expected ${want}`;
	});
}

function chainCheck(world, model) {
	for (let i = 0; i < world.n; i++) {
		if (!world.els[i] || model.els[i].st !== "on") continue;
		const truth = world.truth(i);
		if (i === 0 && count(truth) > 0 && count(truth) < world.cfg.chain) return `element 0 sends an event from each of its first ${world.cfg.chain} states, but its source only holds ${truth}`;
	}
	const held = model.shared ? count(world.src.log()) : null;
	if (held !== null && held !== world.probe.events.length) return `the source holds ${held} events of the ${world.probe.events.length} it received`;
	return null;
}

// MobX: args are handed to the action as they are; without args an action known to take parameters gets the event (MobX hides that of wrapped ones)
const ACTIONS = {
	none: (f) => function () { f(this, arguments); },
	one: (f) => function (_a) { f(this, arguments); },
	two: (f) => function (_a, _b) { f(this, arguments); },
	opt: (f) => function (_a = 5) { f(this, arguments); },
	rest: (f) => function (..._r) { f(this, arguments); },
};
const ARGS = ["absent", [], [0], [undefined], [null, false], [1, "2", { x: 1 }], [[]]];
function mobxArgs(ctx, t) {
	const realm = ctx.realm(150);
	setupRenderer(realm, t.cfg.renderer);
	const calls = [];
	const make = () => {
		const store = { n: 0 };
		for (const [name, fn] of Object.entries(ACTIONS)) store[name] = fn((that, args) => {
			calls.push([name, [...args]]);
			libs.mobx.runInAction(() => that.n++);
		});
		return libs.mobx.observable(store, Object.fromEntries(Object.keys(ACTIONS).map((k) => [k, t.raw ? false : libs.mobx.action])));
	};
	const tag = realm.tag("args");
	let first, last;
	const { html } = t.cfg.renderer === "lit" ? realm.api.lit() : {};
	const { jsx } = realm.api.jsxRuntime();
	realm.api.mobx().igniteCore({ source: KINDS[t.cfg.kind].shared ? make() : make })(tag, ({ state, send }) => {
		first ??= send;
		last = send;
		return html ? html`<b>${state.n}</b>` : jsx("b", { children: state.n });
	});
	const el = realm.document.createElement(tag);
	realm.document.body.append(el);
	const args = ARGS[t.args];
	const event = args === "absent" ? { type: t.action } : { type: t.action, args };
	if (t.ch === "ls") last(event);
	else if (t.ch === "fs") first(event);
	else (t.ch === "send" ? el : el.shadowRoot.querySelector("b")).dispatchEvent(new realm.window.CustomEvent("send", { detail: event, bubbles: true, composed: true }));
	ctx.step();
	const want = args === "absent" ? (t.raw && ["one", "two"].includes(t.action) ? [event] : []) : args;
	const [name, got] = calls[0] ?? [];
	if (calls.length !== 1 || name !== t.action || got.length !== want.length || got.some((a, i) => !Object.is(a, want[i]))) ctx.fail(`the event ${JSON.stringify(event)} over ${t.ch} called ${JSON.stringify(calls)}, expected ${t.action} with ${JSON.stringify(want)}`, { trace: t });
	else if (el.shadowRoot.querySelector("b").textContent !== "1") ctx.fail(`after ${JSON.stringify(event)} the element shows ${el.shadowRoot.textContent}`, { trace: t });
	el.remove();
	realm.takeErrors();
	realm.takeLogs();
}

// events of user-written adapters can be anything
const ANY = [["string", "go"], ["number", 5], ["true", true], ["array", [1, 2]], ["map", new Map([[1, 2]])], ["date", new Date(0)], ["function", () => 1], ["symbol", Symbol("e")], ["instance", new Made()], ["frozen", Object.freeze({ type: "a" })], ["bare", Object.assign(Object.create(null), { type: "a" })], ["bigint", 5n], ["with detail", Object.freeze({ type: "a", detail: { type: "b", detail: 1 } })], ["zero", 0], ["empty", ""], ["false", false], ["NaN", Number.NaN]];
function anything(ctx, t) {
	play(ctx, { ...t, ops: [["parse", 0, "P"], ["parse", 1, "P"], ...(t.re ? [["rm", 0], ["ins", 0, "Q"]] : []), ["tick"]] }, (world, model, op) => {
		if (op[0] !== "tick") return null;
		const el = world.els[0];
		const got = [];
		for (const plain of world.probe.stores.values()) plain.apply = (e) => got.push(e);
		const win = world.realm.window;
		const args = world.infoOf(el).lastArgs;
		const given = t.any.map((k) => ANY[k]);
		for (const [, e] of given) {
			if (t.ch === "send") el.dispatchEvent(new win.CustomEvent("send", { detail: e }));
			else if (t.ch === "in") el.shadowRoot.querySelector(".go").dispatchEvent(new win.CustomEvent("send", { detail: e, bubbles: true, composed: true }));
			else if (t.ch === "ls") args.send(e);
			else world.infoOf(el).firstSend(e);
		}
		if (got.length !== given.length || got.some((e, i) => !Object.is(e, given[i][1]))) return `events ${given.map((g) => g[0])} over ${t.ch}: the adapter received ${got.map((e) => Object.prototype.toString.call(e))}`;
		return null;
	});
}

function payload(ctx, t) {
	const value = PAYLOADS[t.payload];
	const reconnect = t.re ? [["rm", 0], ["ins", 0, "Q"]] : [];
	const ops = [["parse", 0, "P"], ["create", 1], ["ins", 1, "P"], ...reconnect];
	const d = dialect(t.cfg.kind);
	let sent = null;
	play(ctx, { ...t, ops: [...ops, ["tick"]] }, (world, model, op) => {
		if (op[0] !== "tick") return null;
		const frozen = value && typeof value === "object" ? JSON.parse(JSON.stringify(value)) : value;
		sent = d.event("a", frozen);
		if (t.cls) sent = Object.assign(new Made(), sent);
		const el = world.els[0];
		const win = world.realm.window;
		const args = world.infoOf(el).lastArgs;
		const deliver = (e) => {
			if (t.ch === "send") el.dispatchEvent(new win.CustomEvent("send", { detail: e }));
			else if (t.ch === "in") el.shadowRoot.querySelector(".go").dispatchEvent(new win.CustomEvent("send", { detail: e, bubbles: true, composed: true }));
			else if (t.ch === "ls") args.send(e);
			else if (t.ch === "fs") world.infoOf(el).firstSend(e);
			else args.cmd("a", frozen);
		};
		const before = JSON.stringify(sent);
		deliver(sent);
		if (JSON.stringify(sent) !== before) return `the event object was modified: ${before} became ${JSON.stringify(sent)}`;
		const got = JSON.stringify(world.probe.events.map(([, e]) => e));
		const want = JSON.stringify([d.received("a", frozen)]);
		if (t.ch !== "cmd" && !KINDS[t.cfg.kind].lib.startsWith("mobx")) {
			const raw = world.probe.raw.at(-1);
			if (raw !== sent) return `payload ${JSON.stringify(value)}${t.cls ? " in an instance" : ""} over ${t.ch}: the source received another object than the one handed to the element`;
		}
		const inner = world.probe.raw.at(-1);
		const box = KINDS[t.cfg.kind].lib === "mobx" ? inner?.args?.[0] : KINDS[t.cfg.kind].lib === "redux" ? inner?.payload : inner?.p;
		if (frozen && typeof frozen === "object" && box !== frozen && KINDS[t.cfg.kind].lib !== "mobx") return `payload ${JSON.stringify(value)} over ${t.ch} was replaced by a copy`;
		if (got !== want) return `payload ${JSON.stringify(value)} over ${t.ch}: the source received ${got}, expected ${want}`;
		return null;
	});
}
