// From the moment it is removed, an element neither renders nor influences any source.
import { histories, Model, play, usable } from "../lib/world.mjs";
import { KINDS } from "../lib/sources.mjs";
import { snap } from "../lib/views.mjs";
import { configs, reactive, special, twice } from "./C06.mjs";

function* ops(m) {
	for (let i = 0; i < m.n; i++) {
		if (!usable(m, i)) break;
		const e = m.els[i];
		if (e.st === "none") {
			if (i === 0) yield ["parse", 0, "P"];
			else {
				yield ["create", i];
				yield ["parse", i, "P"];
			}
		}
		if (e.st === "new" || (e.st === "off" && m.shared)) yield ["ins", i, "Q"];
		if (e.st === "on") {
			yield ["rm", i];
			yield ["send", i, "a"];
		}
		if (e.st === "new") yield ["send", i, "a"];
		if (e.st === "off") for (const ch of ["send", "in", "ls", "fs"]) yield [ch, i, "b"];
	}
	if (m.shared) yield ["ext", "b"];
	if (m.els.filter((e) => e.st === "on").length > 1) yield ["clear", "P"];
	if (KINDS[m.cfg.kind].timers) {
		const i = m.els.findIndex((e) => e.st === "on");
		if (i >= 0 && (m.shared ? m.due : m.els[i].due) === null) yield ["send", i, "d"];
		if (m.due !== null || m.els.some((e) => e.due !== null)) yield ["tick"];
	}
}

export function makeQuietCheck(t = {}) {
	const seen = new Map(); // element -> {renders, content} at the time it was first seen off the document
	return (world, model, op) => {
		// in and out again within one transaction: a new departure
		if (op[0] === "batch") for (const [o, i] of op[1]) if (o === "ins") seen.delete(world.els[i]);
		const errors = world.realm.takeErrors();
		if (errors.length) return `an exception was raised: ${errors[0]?.stack ?? errors[0]}`;
		for (let i = 0; i < world.n; i++) {
			const el = world.els[i];
			if (!el) continue;
			const info = world.infoOf(el);
			if (info.offRenders > 0) return `element ${i} rendered while it was not in the document`;
			if (el.isConnected) {
				seen.delete(el);
				continue;
			}
			const content = el.shadowRoot ? snap(el.shadowRoot) : "";
			const before = seen.get(el);
			if (!before) seen.set(el, { renders: info.renders, content });
			else {
				if (before.renders !== info.renders) return `element ${i} rendered after it was removed`;
				if (before.content !== content) return `element ${i} changed its content after it was removed`;
			}
			// nothing it was told may have reached a source
			if (!model.shared) {
				const truth = world.truth(i);
				// a machine stopped in the middle of an event drops what it had not got round to
				const dropped = t.leaving && model.cfg.kind === "machine" && model.els[i].log.startsWith(truth);
				if (truth !== undefined && truth !== model.els[i].log && !dropped && model.els[i].st !== "zombie") return `the source of removed element ${i} holds ${JSON.stringify(truth)}, expected ${JSON.stringify(model.els[i].log)}`;
			}
		}
		if (model.shared && world.src.log() !== model.log) return `the shared source holds ${JSON.stringify(world.src.log())}, expected ${JSON.stringify(model.log)}`;
		return null;
	};
}

export default {
	id: "C07",
	bounds: (tier) => `9 source kinds x 2 renderers, 2 elements: every history of ${tier === "thorough" ? 6 : 5} operations including events to removed and not yet inserted elements over all four channels; plus every removal or other reaction armed inside a notification or render, also together with a change; elements inside elements, batches, final states and changes before insertion`,
	assumptions: ["jsdom as the DOM", "commands of a removed element are outside the property"],
	*cases(tier) {
		const thorough = tier === "thorough";
		for (const t of special(thorough ? 5 : 4, { families: ["nest", "batch", "final", "pre"], renderers: thorough ? ["jsx", "lit"] : ["jsx"] })) {
			yield t;
			// and then talk to whatever ended up outside
			const m = new Model(t.cfg);
			for (const op of t.ops) m.apply(op);
			const after = m.els.flatMap((e, i) => (e.st === "off" ? [["send", i, "b"], ["ls", i, "b"]] : []));
			if (after.length) yield { cfg: t.cfg, ops: [...t.ops, ...after] };
		}
		for (const cfg of configs()) {
			const D = (thorough ? 6 : 5) - (cfg.renderer === "lit" ? 1 : 0);
			for (const o of histories(cfg, D, (m) => ops(m))) yield { cfg, ops: o };
			for (const t of reactive(cfg, thorough ? 2 : 1)) {
				// reactions that remove something, followed by events to whatever was removed
				if (!thorough && t.ops.find((o) => o[0] === "arm")[2][0] !== "rm") continue;
				yield t;
				const at = t.ops.findIndex((o) => o[0] === "arm");
				const gone = t.ops[at][2];
				if (gone[0] === "rm") for (const ch of ["send", "ls"]) yield { cfg: t.cfg, ops: [...t.ops.slice(0, at + 2), [ch, gone[1], "b"], ...t.ops.slice(at + 2)] };
			}
		}
		// a removal together with a change, inside a notification or render
		const leaving = function* (m) {
			for (const r of twice(m)) {
				const [a, b] = r[1];
				if ((a[0] === "rm") !== (b[0] === "rm") && a[0] !== "ins" && b[0] !== "ins") yield r;
			}
		};
		for (const cfg of configs()) for (const t of reactive(cfg, thorough ? 1 : 0, { react: leaving })) yield { ...t, leaving: true };
	},
	exec(ctx, t) {
		play(ctx, t, makeQuietCheck(t));
	},
};
