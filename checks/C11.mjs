// Removing an element releases everything it privately owned, and nothing else.
import { histories, play, usable } from "../lib/world.mjs";
import { dialect, ISOLATED, KINDS } from "../lib/sources.mjs";
import { libs } from "../lib/realm.mjs";
import { reactive, special } from "./C06.mjs";

function* ops(m) {
	const timers = KINDS[m.cfg.kind].timers;
	for (let i = 0; i < m.n; i++) {
		if (!usable(m, i)) break;
		const e = m.els[i];
		if (e.st === "none") {
			yield ["create", i];
			yield ["parse", i, "P"];
		}
		if (e.st === "new" || e.st === "off") yield ["ins", i, "P"];
		if (e.st === "on") {
			yield ["rm", i];
			yield ["ins", i, e.place === "P" ? "Q" : "P"];
			yield ["send", i, "a"];
			if (!timers) yield ["cmd", i, "b"];
			if (timers && e.due === null) yield ["send", i, "d"];
		}
		if (e.st === "zombie") yield ["rm", i];
	}
	if (timers && m.els.some((e) => e.st !== "none")) yield ["tick"];
	if (m.els.filter((e) => e.place === "P").length > 1) yield ["clear", "P"];
}

function makeCheck() {
	return (world, model) => {
		const { kind } = world.cfg;
		const d = dialect(kind);
		let waiting = 0;
		for (let i = 0; i < world.n; i++) {
			const el = world.els[i];
			if (!el) continue;
			const st = model.els[i].st;
			const gone = st === "off" || st === "zombie";
			if (!gone && model.els[i].due !== null) waiting++;
			const ids = world.infoOf(el).ids;
			for (const id of ids) {
				const live = world.probe.live.get(id) ?? 0;
				const subs = kind === "obsFactory" ? (libs.mobx.getObserverTree(world.probe.stores.get(id).deep, "log").observers?.length ?? 0) : (world.probe.subs.get(id) ?? 0);
				const stops = world.probe.stops.get(id) ?? 0;
				if (gone && live > 0) return `element ${i} left, but its machine is still running`;
				if (gone && subs > 0) return `element ${i} left, but ${subs} subscription(s) to its source remain`;
				if (kind === "custom" && gone && stops !== 1) return `element ${i} left and its adapter was stopped ${stops} times`;
				if (kind === "custom" && !gone && stops !== 0) return `element ${i} never left, but its adapter was stopped`;
				if (kind === "machine" && !gone && live !== (model.els[i].over ? 0 : 1)) return `element ${i} never left, but its machine is not running`;
				if (!gone && st === "on" && kind !== "machine" && subs < 1) return `element ${i} is connected, but nothing is subscribed to its source`;
			}
			if (gone) {
				const kept = el.currentState;
				// (a change made in the same transaction as the removal was never shown)
				const unseen = world.cfg.batched && d.logOf(kept) === d.logOf(world.infoOf(el).lastArgs.state);
				if (kept && !unseen && d.logOf(kept) !== model.els[i].log) return `removed element ${i} keeps state ${JSON.stringify(d.logOf(kept))}, it last had ${JSON.stringify(model.els[i].log)}`;
			} else if (st === "on" && world.truth(i) !== model.els[i].log) return `element ${i} holds ${JSON.stringify(world.truth(i))}, expected ${JSON.stringify(model.els[i].log)}`;
		}
		if (kind === "machine" && world.realm.clock.pending.size > waiting) return `${world.realm.clock.pending.size} timers are pending, only ${waiting} connected machine(s) wait`;
		if (kind === "machine" && world.realm.clock.pending.size < waiting) return `${waiting} connected machine(s) wait, but only ${world.realm.clock.pending.size} timers are pending`;
		return null;
	};
}

export default {
	id: "C11",
	bounds: (tier) => `5 private-state source kinds x 2 renderers, 2 elements: every history of ${tier === "thorough" ? 7 : 6} operations (create, parse, insert, move, remove, re-insert, event, timer start, time step); removals inside notifications; elements inside elements, batches, final states`,
	assumptions: ["jsdom as the DOM", "subscriptions inside a store built by the adapter itself (slice) are not visible; C07 covers their effect"],
	*cases(tier) {
		const thorough = tier === "thorough";
		for (const t of special(thorough ? 5 : 4, { families: ["nest", "batch", "final", "pre"] })) {
			if (!ISOLATED.includes(t.cfg.kind)) continue;
			yield t;
			if (KINDS[t.cfg.kind].timers) yield { cfg: t.cfg, ops: [...t.ops, ["tick"], ["clear", "P"], ["tick"]] };
		}
		for (const renderer of ["jsx", "lit"])
			for (const kind of ISOLATED) {
				const cfg = { kind, renderer, n: 2 };
				const D = (thorough ? 7 : 6) - (renderer === "lit" ? 1 : 0);
				for (const o of histories(cfg, D, (m) => ops(m))) yield { cfg, ops: o };
				for (const t of reactive(cfg, 1)) {
					yield t;
					if (KINDS[kind].timers) yield { cfg: t.cfg, ops: [...t.ops, ["tick"]] };
				}
			}
	},
	exec(ctx, t) {
		play(ctx, t, makeCheck());
	},
};
