// Every connected element shows its source's current state whenever the world is at rest.
import { count, histories, play, usable } from "../lib/world.mjs";
import { pairs, playPair } from "../lib/pairs.mjs";
import { playPrim, prims } from "../lib/prims.mjs";
import { ISOLATED, KINDS, SHARED } from "../lib/sources.mjs";

export function configs({ n = 2 } = {}) {
	const out = [];
	for (const renderer of ["jsx", "lit"]) {
		for (const kind of ISOLATED) out.push({ kind, renderer, n });
		for (const kind of SHARED) out.push({ kind, renderer, n, tags: [0] });
	}
	return out;
}

const due = (m, i) => (m.shared ? m.due : m.els[i].due);
export function* plainOps(m, { parse = true, cmd = true } = {}) {
	const timers = KINDS[m.cfg.kind].timers;
	for (let i = 0; i < m.n; i++) {
		if (!usable(m, i)) break;
		const e = m.els[i];
		if (e.st === "none") {
			yield ["create", i];
			if (parse) yield ["parse", i, "P"];
		}
		if (e.st === "new" || (e.st === "off" && m.shared)) yield ["ins", i, "P"];
		if (e.st === "on") {
			if (m.shared) yield ["ins", i, e.place === "P" ? "Q" : "P"];
			yield ["rm", i];
			yield ["send", i, "a"];
			if (cmd) yield ["cmd", i, "b"];
			if (timers && due(m, i) === null) yield ["send", i, "d"];
		}
	}
	if (m.shared) yield ["ext", "b"];
	if (timers && (m.due !== null || m.els.some((e) => e.due !== null))) yield ["tick"];
}

export function* reactions(m) {
	for (let i = 0; i < m.n; i++) {
		const e = m.els[i];
		if (e.st === "none" && usable(m, i)) yield ["parse", i, "Q"];
		if (e.st === "new" || (e.st === "off" && m.shared)) yield ["ins", i, "Q"];
		if (e.st === "on") {
			yield ["rm", i];
			yield ["send", i, "a"];
			if (m.shared) yield ["ins", i, e.place === "P" ? "Q" : "P"];
		}
	}
	if (m.shared) yield ["ext", "b"];
}

/** two reactions at once */
export function* twice(m) {
	for (const r of reactions(m)) {
		if (r[0] === "parse") continue;
		for (const q of reactions(m.clone().apply(r))) if (q[0] !== "parse") yield ["seq", [r, q]];
	}
}

const SETUPS = [
	[["create", 0], ["ins", 0, "P"]],
	[["create", 0], ["ins", 0, "P"], ["create", 1]],
	[["create", 0], ["create", 1], ["ins", 0, "P"], ["ins", 1, "P"]],
	[["create", 0], ["create", 1], ["ins", 1, "P"], ["ins", 0, "P"]],
	[["create", 0], ["ins", 0, "P"], ["rm", 0], ["create", 1], ["ins", 1, "P"]],
	[["create", 0], ["create", 1], ["ins", 0, "P"], ["rm", 0]],
];

/** setup, arm one reaction, trigger it, then follow up */
export function* reactive(cfg, follow, { early = [true, false], react = reactions } = {}) {
	for (const setup of SETUPS) {
		const shared = KINDS[cfg.kind].shared;
		const c0 = { ...cfg };
		for (const e of shared ? early : [false]) {
			const c = { ...c0, ...(shared ? { early: e } : {}) };
			const gen = histories(
				c,
				2 + follow,
				function* (m, ops) {
					const k = ops.length - setup.length;
					if (k === 0) {
						const ws = [];
						if (m.shared) ws.push("x");
						if (e || !m.shared) for (let i = 0; i < m.n; i++) if (m.els[i].st === "on" || m.els[i].st === "new" || (m.els[i].st === "off" && m.shared)) ws.push(`r${i}`);
						for (const w of ws) for (const r of react(m)) yield ["arm", w, r];
					} else if (k === 1) {
						// something that makes the trigger fire
						for (const op of plainOps(m, { parse: false })) {
							const after = m.clone().apply(op);
							if (after.armed === null) yield op;
						}
					} else {
						for (let i = 0; i < m.n; i++) {
							if (m.els[i].st === "on") yield ["send", i, "a"];
							if (m.els[i].st === "new" || (m.els[i].st === "off" && m.shared)) yield ["ins", i, "P"];
						}
						if (m.shared) yield ["ext", "a"];
					}
				},
				{ prefix: setup },
			);
			for (const ops of gen) yield { cfg: c, ops };
		}
	}
}

export function displayCheck(world, model) {
	for (let i = 0; i < world.n; i++) {
		const el = world.els[i];
		if (!el || !el.isConnected || model.els[i].st === "zombie") continue;
		const truth = world.truth(i);
		const got = world.shown(i);
		if (i === 0 && world.cfg.chain && count(truth) > 0 && count(truth) < world.cfg.chain) return `element 0 keeps sending from its renderer until there are ${world.cfg.chain} events, but its source holds ${truth}`;
		if (world.bad(truth)) continue; // there is no rendering of this state
		if (got !== world.want(truth, world.modeNow(i))) return `element ${i} is connected and shows ${JSON.stringify(got)} while its source holds ${JSON.stringify(truth)}`;
	}
	return null;
}

/** histories with operations the plain families leave out */
export function* special(depth, { renderers = ["jsx", "lit"], families = ["reset", "pre", "nest", "batch", "final"] } = {}) {
	for (const renderer of renderers) {
		const less = renderer === "lit" ? 1 : 0;
		for (const kind of Object.keys(KINDS)) {
			const { lib, shared } = KINDS[kind];
			const base = { kind, renderer, n: 2 };
			const all = function* (cfg, D, enabled, prefix = []) {
				for (const ops of histories(cfg, D, enabled, { prefix })) yield { cfg, ops };
			};
			// the source goes back to the very state it started from
			if (families.includes("reset"))
				yield* all(base, depth - less, function* (m) {
					yield* plainOps(m, { parse: false });
					for (let i = 0; i < m.n; i++) if (m.els[i].st === "on" && m.logOf(i)) yield ["send", i, "z"];
					if (m.shared && m.log) yield ["ext", "z"];
				}, [["parse", 0, "P"]]);
			// elements already in the document when their tag is registered
			if (families.includes("pre"))
				for (const tags of [[0], [0, 0]]) yield* all({ ...base, pre: 2, tags }, depth - 1 - less, (m) => plainOps(m));
			// elements inside elements
			if (families.includes("nest"))
				yield* all(base, depth + 3 - less, function* (m) {
					for (let i = 0; i < m.n; i++) {
						if (!usable(m, i)) break;
						const e = m.els[i];
						if (e.st === "none") yield ["create", i];
						const j = 1 - i;
						if (e.st === "none" || m.els[j].st === "none") {
							if (e.st === "new") yield ["ins", i, "P"];
							continue;
						}
						if (e.place === null && (e.st === "new" || shared)) yield ["ins", i, "P"];
						if (e.place !== `E${j}` && !m.inside(i, j) && (shared || e.st === "new" || e.st === "on")) yield ["nest", i, j];
						if (e.place !== null) yield ["rm", i];
						if (e.st === "on") yield ["send", i, "a"];
					}
					if (shared && m.connected()) yield ["ext", "b"];
				});
			// several changes and moves in one transaction
			if (families.includes("batch") && lib === "mobx") {
				const inner = function* (m, k, acc) {
					if (acc.length > 1) yield acc;
					if (k === 0) return;
					for (const op of reactions(m)) if (op[0] !== "parse") yield* inner(m.clone().apply(op), k - 1, [...acc, op]);
					if (m.shared && m.log) yield* inner(m.clone().apply(["ext", "z"]), k - 1, [...acc, ["ext", "z"]]);
				};
				for (const setup of SETUPS)
					yield* all({ ...base, batched: true }, 2, function* (m, ops) {
						if (ops.length === setup.length) for (const b of inner(m, depth - 1 - less, [])) yield ["batch", b];
						else yield* plainOps(m, { parse: false });
					}, setup);
			}
			// the machine reaches its end
			if (families.includes("final") && lib === "xstate")
				yield* all(base, depth - less, function* (m) {
					yield* plainOps(m, { parse: false });
					for (let i = 0; i < m.n; i++) if (m.els[i].st === "on") {
						yield ["send", i, "f"];
						yield ["cmd", i, "f"];
					}
					if (m.shared) yield ["ext", "f"];
				}, [["parse", 0, "P"]]);
			// the renderer throws in one state and is fine again in the next
			if (families.includes("throwing"))
				yield* all({ ...base, n: 1, throwing: true }, depth + 1 - less, (m) => plainOps(m), []);
		}
	}
}

export default {
	id: "C06",
	bounds: (tier) =>
		`9 source kinds x 2 renderers, 2 elements: every history of ${tier === "thorough" ? 6 : 5} operations (create, parse, insert, move, remove, event, command, outside change, timer start, time step); plus every (setup, armed reaction (one, or two together) inside a notification or render, triggering operation, ${tier === "thorough" ? 2 : 1} follow-up) ; two tags over one source; shared sources with cleanup turned off; renderers that keep sending events until up to 60 were applied; a view whose child sends to its component while being connected; the special families of lib/world.mjs (changes before the first insertion, resets to an earlier state, elements inside elements, MobX batches, machines reaching a final state, renderers that throw), pairs of components one inside the other, and sources whose whole state is one of 8 values such as 0, "", false or null`,
	assumptions: ["jsdom as the DOM", "undefined is not a state (it is how the element recognises that it has none yet)", "private-state elements are checked until first removed; re-inserting them is outside the property"],
	*cases(tier) {
		const thorough = tier === "thorough";
		const D = thorough ? 6 : 5;
		for (const cfg of configs()) {
			for (const ops of histories(cfg, cfg.renderer === "lit" && !thorough ? D - 1 : D, (m) => plainOps(m))) yield { cfg, ops };
			yield* reactive(cfg, thorough ? 2 : 1);
			if (thorough || cfg.renderer === "jsx") yield* reactive(cfg, 0, { react: twice });
		}
		// two tags, from one factory or from two factories over the same source
		for (const kind of SHARED) for (const tags of [[0, 0], [0, 1]]) {
			const cfg = { kind, renderer: "jsx", n: 2, tags };
			for (const ops of histories(cfg, D - 1, (m) => plainOps(m, { parse: false }))) yield { cfg, ops };
		}
		// the adapter over the source is kept while nobody uses it
		for (const kind of SHARED) {
			const cfg = { kind, renderer: "jsx", n: 2, cleanup: false };
			for (const ops of histories(cfg, D, (m) => plainOps(m, { parse: false, cmd: false }))) yield { cfg, ops };
		}
		// children that talk to their component while it is being rendered
		for (const base of configs()) {
			const cfg = { ...base, view: "ping" };
			for (const ops of histories(cfg, thorough ? 5 : 4, (m) => plainOps(m, { parse: false }), { prefix: [["parse", 0, "P"]] })) yield { cfg, ops };
		}
		// renderers that keep sending events until the state has settled
		for (const base of configs()) for (const chain of [2, 3, 4, 6, 12, 60]) {
			const cfg = { ...base, chain };
			for (const ops of histories(cfg, chain > 20 ? 1 : thorough ? 4 : 3, (m) => plainOps(m), { prefix: [["parse", 0, "P"]] })) yield { cfg, ops };
			if (chain < 20) for (const ops of histories(cfg, 2, (m) => plainOps(m), { prefix: [["parse", 0, "P"], ["parse", 1, "Q"]] })) yield { cfg, ops };
		}
		yield* special(thorough ? 5 : 4, { families: ["reset", "pre", "nest", "batch", "final", "throwing"] });
		// components inside the content of components
		yield* pairs(thorough ? 5 : 4);
		// states that are not objects
		yield* prims(thorough ? 4 : 3);
	},
	exec(ctx, t) {
		if (t.pair) return playPair(ctx, t);
		if (t.prim) return playPrim(ctx, t);
		play(ctx, t, displayCheck);
	},
};
