// Derived values handed to a render are computed from the element's own current state.
import { histories, play } from "../lib/world.mjs";
import { KINDS, createSource, dialect, Probe } from "../lib/sources.mjs";
import { playPrim, prims, VALUES } from "../lib/prims.mjs";
import { configs, plainOps, reactive, special } from "./C06.mjs";

const KEYS = ["shown", "size", "who", "cmd", "now"];

// states callbacks of different shapes; each maps a log to the declared values
const SHAPES = {
	none: null,
	empty: () => ({}),
	one: (log) => ({ v: log }),
	nested: (log) => ({ v: { log, parts: [...log] }, flag: log.includes("a"), nothing: undefined, nil: null }),
	shadow: (log) => ({ state: `fake${log}`, send: 7, v: log }),
	fn: (log) => ({ v: () => log, count: log.length, 0: "zero" }),
	dropped: (log) => ({ v: log, ...(log === "" ? { hint: "start" } : log.endsWith("0") ? { hint: log } : {}) }),
	noproto: (log) => Object.assign(Object.create(null), { v: log }),
};

export default {
	id: "C13",
	bounds: (tier) => `9 source kinds x 2 renderers, 2 elements: every history of ${tier === "thorough" ? 6 : 5} operations and every reaction inside a notification, comparing all values at every render; ${Object.keys(SHAPES).length} states-callback shapes x 7 kinds x every history of ${tier === "thorough" ? 4 : 3} events over two elements; components whose whole state is one of ${VALUES.length} values: every history of 3 changes; the special families of C06`,
	assumptions: ["jsdom as the DOM", "the states callback is deterministic and names its values for the initial state"],
	*cases(tier) {
		const thorough = tier === "thorough";
		yield* special(thorough ? 5 : 4, { renderers: thorough ? ["jsx", "lit"] : ["jsx"] });
		yield* prims(3, thorough ? ["jsx", "lit"] : ["jsx"]);
		for (const cfg of configs()) {
			const D = (thorough ? 6 : 5) - (cfg.renderer === "lit" ? 1 : 0);
			for (const ops of histories(cfg, D, (m) => plainOps(m))) yield { cfg, ops };
			yield* reactive(cfg, 1);
		}
		for (const kind of Object.keys(KINDS)) {
			if (KINDS[kind].lib === "custom") continue;
			for (const shape of Object.keys(SHAPES)) {
				const alphabet = ["s0", "s1", "c0", "c1", "m0"];
				const go = function* (n, acc) {
					if (n === 0) {
						yield acc;
						return;
					}
					for (const a of alphabet) yield* go(n - 1, [...acc, a]);
				};
				for (const seq of go(thorough ? 4 : 3, [])) yield { kind, shape, seq };
			}
		}
	},
	exec(ctx, t) {
		if (t.prim) return playPrim(ctx, t);
		if (t.shape) return shapes(ctx, t);
		let bad = null;
		const check = (world, model) => {
			if (bad) return bad;
			for (let i = 0; i < world.n; i++) {
				const el = world.els[i];
				if (!el?.isConnected || model.els[i].st !== "on") continue;
				const truth = world.truth(i);
				const args = world.infoOf(el).lastArgs;
				if (args.shown !== truth || args.size !== truth.length || args.mode !== world.modeNow(i)) return `element ${i} last received shown=${JSON.stringify(args.shown)} size=${args.size} mode=${args.mode}, its source holds ${JSON.stringify(truth)}`;
				if (world.d.logOf(args.state) !== truth) return `element ${i} last received state ${JSON.stringify(world.d.logOf(args.state))}, its source holds ${JSON.stringify(truth)}`;
			}
			return null;
		};
		play(ctx, t, check, {
			render(host, args) {
				if (bad) return;
				for (const k of KEYS) if (!(k in args)) bad = `a render did not receive ${k}`;
				if (typeof args.send !== "function" || typeof args.state !== "object") bad = "a render did not receive state and send";
				const now = args.now();
				if (args.shown !== now || args.size !== now.length || args.mode !== args.nowMode()) bad = `a render received shown=${JSON.stringify(args.shown)} size=${args.size} mode=${args.mode} while its source held ${JSON.stringify(now)}`;
			},
		});
	},
};

function shapes(ctx, t) {
	const realm = ctx.realm(150);
	const d = dialect(t.kind);
	const probe = new Probe();
	const src = createSource(t.kind, probe);
	const shape = SHAPES[t.shape];
	const { igniteCore } = realm.api[KINDS[t.kind].lib]();
	const seen = new Map();
	let bad = null;
	const norm = (v) => JSON.stringify(v, (_, x) => (typeof x === "function" ? `fn:${x()}` : x === undefined ? "undef" : x));
	const register = igniteCore({
		source: src.source,
		...(shape ? { states: (snap) => shape(d.snapLog(snap)) } : {}),
		commands: ({ actor, host }) => ({ who: () => host, cmd: (x, p) => d.command(actor, x, p), now: () => d.current(actor) }),
	});
	const tag = realm.tag("f");
	const { jsx } = realm.api.jsxRuntime();
	const verify = (args, when) => {
		const now = args.now();
		// the declared names are those of the initial state; one that a later result lacks is undefined
		const want = shape ? Object.fromEntries(Object.keys(shape("")).map((k) => [k, shape(now)[k]])) : {};
		for (const k of Object.keys(want)) {
			if (k === "state" || k === "send") continue;
			if (!Object.hasOwn(args, k)) bad ??= `${when}: the declared value ${k} is missing`;
			else if (norm(args[k]) !== norm(want[k])) bad ??= `${when}: ${k} is ${norm(args[k])}, expected ${norm(want[k])} for ${JSON.stringify(now)}`;
		}
		const extra = Object.keys(args).filter((k) => !["state", "send", "who", "cmd", "now", ...Object.keys(want)].includes(k));
		if (extra.length) bad ??= `${when}: undeclared values ${extra}`;
		if (typeof args.state !== "object" || d.logOf(args.state) !== now) bad ??= `${when}: state was replaced or is stale`;
		if (typeof args.send !== "function") bad ??= `${when}: send was replaced`;
	};
	register(tag, (args) => {
		seen.set(args.who(), args);
		verify(args, "during a render");
		return jsx("p", { children: args.now() });
	});
	const els = [0, 1].map(() => {
		const el = realm.document.createElement(tag);
		realm.document.body.append(el);
		return el;
	});
	let n = 0;
	for (const op of t.seq) {
		const el = els[Number(op[1])];
		const p = n++;
		if (op[0] === "s") seen.get(el).send(d.event("a", p));
		else if (op[0] === "c") seen.get(el).cmd("b", p);
		else if (KINDS[t.kind].shared) {
			const other = realm.document.createElement("div");
			realm.document.body.append(other);
			other.append(el);
		}
		ctx.step();
		for (const e of els) verify(seen.get(e), "after an operation");
		ctx.state(`${t.kind}|${t.shape}|${els.map((e) => e.shadowRoot.textContent)}`);
	}
	if (bad) ctx.fail(bad);
	realm.document.body.replaceChildren();
	src.dispose?.();
	realm.takeErrors();
	realm.takeLogs();
	realm.clock.pending.clear();
}
