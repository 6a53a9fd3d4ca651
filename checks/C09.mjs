// A shared source is held exactly while needed, never harmed, and usable again afterwards.
import { histories, play, usable } from "../lib/world.mjs";
import { SHARED } from "../lib/sources.mjs";
import { displayCheck, reactive, special } from "./C06.mjs";

function* ops(m) {
	for (let i = 0; i < m.n; i++) {
		if (!usable(m, i)) break;
		const e = m.els[i];
		if (e.st === "none") {
			yield ["create", i];
			yield ["parse", i, "P"];
		}
		if (e.st === "new" || e.st === "off") yield ["ins", i, "P"];
		if (e.st === "on") {
			yield ["ins", i, e.place === "P" ? "Q" : "P"];
			yield ["rm", i];
		}
	}
	const first = m.els.findIndex((e) => e.st === "on");
	if (first >= 0) yield ["send", first, "a"];
	yield ["ext", "b"];
	if (m.els.filter((e) => e.st === "on" && e.place === "P").length > 1) yield ["clear", "P"];
}

function makeCheck(t) {
	const cleanup = t.cfg.cleanup !== false;
	const plan = t.cfg.tags ?? [0];
	const factoryOf = (i) => plan[(t.cfg.assign ?? [])[i] ?? i % plan.length];
	const epoch = {}; // factory -> releases so far
	const createdIn = [];
	let wasOn = {};
	return (world, model, op) => {
		const bad = displayCheck(world, model);
		if (bad) return bad;
		if (!world.src.healthy()) return "the actor supplied by the user was stopped";
		if (world.src.log() !== model.log) return `the source holds ${JSON.stringify(world.src.log())}, expected ${JSON.stringify(model.log)}`;
		const on = {};
		let connectedTotal = 0;
		for (let i = 0; i < world.n; i++) {
			if (!world.els[i]) continue;
			if (createdIn[i] === undefined) createdIn[i] = epoch[factoryOf(i)] ?? 0;
			if (world.els[i].isConnected) {
				on[factoryOf(i)] = (on[factoryOf(i)] ?? 0) + 1;
				connectedTotal++;
			}
		}
		for (const f of new Set(plan)) if ((wasOn[f] ?? 0) > 0 && !(on[f] > 0)) epoch[f] = (epoch[f] ?? 0) + 1;
		wasOn = on;
		// elements created since the last release and not inserted yet may hold a subscription
		const fresh = world.els.some((el, i) => el && !el.isConnected && model.els[i].st === "new" && createdIn[i] >= (epoch[factoryOf(i)] ?? 0));
		const subs = world.src.observers ? world.src.observers() - (world.watchers.length ? 1 : 0) : (world.probe.subs.get(0) ?? 0);
		if (cleanup && connectedTotal === 0 && !fresh && subs !== 0) return `no element is connected any more, but ${subs} subscription(s) to the source remain`;
		if (connectedTotal > 0 && subs < 1) return "an element is connected but nothing is subscribed to the source";
		const list = world.src.adapterList;
		if (list) {
			for (const a of list) if ((a.stopCount ?? 0) > 1) return "an adapter was stopped more than once";
			const stopped = list.filter((a) => a.stopCount).length;
			if (!cleanup && stopped) return "cleanup is off, but the adapter was stopped";
			if (connectedTotal > 0 && stopped === list.length) return "an element is connected but its adapter is stopped";
			if (cleanup) {
				const factories = new Set(plan).size;
				if (connectedTotal === 0 && !fresh && Object.values(epoch).some((n) => n > 0)) {
					// each factory that was used has released its adapter; unused ones may keep one
					const unused = [...new Set(plan)].filter((f) => !(epoch[f] > 0)).length;
					if (list.length - stopped > unused) return `no element is connected any more, but ${list.length - stopped - unused} adapter(s) were not stopped`;
				}
				if (factories < 0) return "unreachable";
			}
		}
		return null;
	};
}

export default {
	id: "C09",
	bounds: (tier) => `4 shared source kinds x cleanup {default, true, false} x {one tag, two tags of one factory, two factories}: every history of ${tier === "thorough" ? "6 to 7" : "5 to 6"} operations over 2 elements, ${tier === "thorough" ? 6 : 5} over 3; both renderers at reduced depth; plus reactions inside notifications, elements inside elements, batches and changes before insertion`,
	assumptions: ["jsdom as the DOM", "a user-written shared adapter factory returns a fresh adapter after the previous one was stopped"],
	*cases(tier) {
		const thorough = tier === "thorough";
		const D = thorough ? 7 : 6;
		for (const t of special(thorough ? 5 : 4, { families: ["nest", "batch", "pre"], renderers: ["jsx"] })) if (SHARED.includes(t.cfg.kind)) yield t;
		for (const kind of SHARED) {
			for (const cleanup of [undefined, false, true]) {
				for (const tags of [[0], [0, 0], [0, 1]]) {
					const cfg = { kind, renderer: "jsx", n: 2, tags, ...(cleanup === undefined ? {} : { cleanup }) };
					const depth = cleanup === true ? 4 : tags.length > 1 ? D - 1 : D;
					for (const o of histories(cfg, depth, (m) => ops(m))) yield { cfg, ops: o };
				}
			}
			for (const cleanup of [undefined, false]) {
				const c = cleanup === undefined ? {} : { cleanup };
				const lit = { kind, renderer: "lit", n: 2, ...c };
				for (const o of histories(lit, D - 2, (m) => ops(m))) yield { cfg: lit, ops: o };
				const three = { kind, renderer: "jsx", n: 3, tags: [0, 0], ...c };
				for (const o of histories(three, D - 1, (m) => ops(m))) yield { cfg: three, ops: o };
				for (const renderer of ["jsx", "lit"]) yield* reactive({ kind, renderer, n: 2, ...c }, thorough ? 2 : 1);
			}
		}
	},
	exec(ctx, t) {
		play(ctx, t, makeCheck(t));
	},
};
