// Components whose whole state is one value: 0, "", false, null, ... as Redux stores and user-written adapters allow.
// Operations: ["s",v] event to the element, ["c",v] command, ["x",v] outside change (shared sources), "-" remove, "+" insert.
import { libs } from "./realm.mjs";
import { setupRenderer } from "./world.mjs";

export const VALUES = [0, "", false, null, 1, "t", Number.NaN, Object.freeze({ n: 1 })];
const KINDS = { store: true, storeFactory: false, slice: false, box: true, boxFactory: false, customShared: true, custom: false };

export function* prims(depth, renderers = ["jsx", "lit"]) {
	for (const renderer of renderers)
		for (const [kind, shared] of Object.entries(KINDS))
			for (let first = 0; first < VALUES.length; first++) {
				const go = function* (n, acc, at, on, left) {
					if (n === 0) {
						yield acc;
						return;
					}
					for (let v = 0; v < VALUES.length; v++) {
						if (v === at) continue;
						if (on) yield* go(n - 1, [...acc, [n % 2 ? "s" : "c", v]], v, on, left);
						else if (shared) yield* go(n - 1, [...acc, ["x", v]], v, on, left);
					}
					if (on && (shared || !left)) yield* go(n - 1, [...acc, "-"], at, false, true);
					else if (shared) yield* go(n - 1, [...acc, "+"], at, true, left);
				};
				for (const ops of go(renderer === "lit" ? depth - 1 : depth, [], first, true, false)) yield { prim: kind, renderer, first, ops };
			}
}

const name = (v) => (v && typeof v === "object" ? "object" : `${typeof v}:${String(v)}`);

export function playPrim(ctx, t) {
	const realm = ctx.realm(150);
	if (realm.worldRenderer && realm.worldRenderer !== t.renderer) {
		ctx.closeRealm();
		return playPrim(ctx, t);
	}
	setupRenderer(realm, t.renderer);
	realm.takeErrors();
	realm.takeLogs();
	const shared = KINDS[t.prim];
	const initial = VALUES[t.first];
	const make = () => libs.rtk.configureStore({ reducer: (s = initial, a) => (a.type === "set" ? a.to : s), middleware: (d) => d({ serializableCheck: false, immutableCheck: false }) });
	const plain = () => {
		const listeners = new Set();
		const me = { value: initial, set(v) { me.value = v; for (const l of [...listeners]) l(); }, listeners };
		return me;
	};
	const adapterOf = (p) => {
		let stopped = false;
		return {
			subscribe(l) {
				const on = () => stopped || l(p.value);
				p.listeners.add(on);
				l(p.value);
				return { unsubscribe: () => p.listeners.delete(on) };
			},
			send(v) {
				if (!stopped) p.set(v);
			},
			getState: () => p.value,
			stop() {
				stopped = true;
			},
		};
	};
	const tag = realm.tag("p");
	let last = null;
	const { jsx } = realm.api.jsxRuntime();
	const lit = t.renderer === "lit" ? realm.api.lit() : null;
	const pick = (s) => (t.prim === "slice" ? s.m : s);
	const render = (args) => {
		last = args;
		const text = `${name(pick(args.state))} ${args.shown ?? "?"}`;
		return lit ? lit.html`<p>${text}</p>` : jsx("p", { children: text });
	};
	let outside = null;
	let factory;
	let event = (v) => ({ type: "set", to: v });
	let command;
	if (t.prim.startsWith("custom")) {
		const one = shared ? plain() : null;
		outside = (v) => one.set(v);
		event = (v) => v;
		factory = realm.api.index().igniteElementFactory(() => adapterOf(one ?? plain()), {
			...(shared ? { scope: "shared" } : {}),
			createAdditionalArgs: (adapter) => ({ get shown() { return name(adapter.getState()); }, set: (v) => adapter.send(v) }),
		});
		command = (v) => last.set(v);
	} else if (t.prim.startsWith("box")) {
		const box = () => libs.mobx.observable.box(initial, { deep: false });
		const one = shared ? box() : null;
		outside = (v) => libs.mobx.runInAction(() => one.set(v));
		event = (v) => ({ type: "set", args: [v] });
		factory = realm.api.mobx().igniteCore({ source: one ?? box, states: (s) => ({ shown: name(s) }), commands: ({ actor }) => ({ set: (v) => libs.mobx.runInAction(() => actor.set(v)) }) });
		command = (v) => last.set(v);
	} else {
		const store = shared ? make() : null;
		outside = (v) => store.dispatch(event(v));
		let source = store ?? make;
		if (t.prim === "slice") {
			source = libs.rtk.createSlice({ name: "m", initialState: initial, reducers: { set: (s, a) => a.payload } });
			event = (v) => ({ type: "m/set", payload: v });
		}
		factory = realm.api.redux().igniteCore({ source, states: (s) => ({ shown: name(pick(s)) }), commands: ({ actor }) => ({ set: (v) => actor.dispatch(event(v)) }) });
		command = (v) => last.set(v);
	}
	factory(tag, render);
	const el = realm.document.createElement(tag);
	let now = initial;
	const check = () => {
		const errors = realm.takeErrors();
		if (errors.length) return `an exception was raised: ${errors[0]?.stack ?? errors[0]}`;
		if (!el.isConnected) return null;
		const got = [...el.shadowRoot.querySelectorAll("p")].map((p) => p.textContent).join("/");
		const want = `${name(now)} ${name(now)}`;
		return got === want ? null : `the element shows ${JSON.stringify(got)} in state ${name(now)}`;
	};
	realm.document.body.append(el);
	let bad = check();
	for (const op of bad ? [] : t.ops) {
		if (op === "-") el.remove();
		else if (op === "+") realm.document.body.append(el);
		else {
			const v = VALUES[op[1]];
			// a send event without details is passed on itself, so null travels through the send function
			if (op[0] === "s") {
				const e = event(v);
				if (e === null) last.send(e);
				else el.dispatchEvent(new realm.window.CustomEvent("send", { detail: e }));
			} else if (op[0] === "c") command(v);
			else outside(v);
			now = v;
		}
		ctx.step();
		ctx.state(`prim|${t.prim}|${name(now)}|${el.isConnected}`);
		bad = check();
		if (bad) {
			bad += `\n after ${JSON.stringify(op)} of ${JSON.stringify(t)}`;
			break;
		}
	}
	el.remove();
	realm.takeErrors();
	realm.takeLogs();
	if (bad) ctx.fail(bad);
}
