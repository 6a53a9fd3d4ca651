// Elements with private state never influence each other.
import { histories, play, usable } from "../lib/world.mjs";
import { ISOLATED, KINDS } from "../lib/sources.mjs";
import { snap } from "../lib/views.mjs";
import { reactive } from "./C06.mjs";

function* ops(m) {
	for (let i = 0; i < m.n; i++) {
		if (!usable(m, i)) break;
		const e = m.els[i];
		if (e.st === "none") {
			yield ["create", i];
			yield ["parse", i, "P"];
		}
		if (e.st === "new" || e.st === "off") yield ["ins", i, "Q"];
		if (e.st === "on") {
			yield ["rm", i];
			yield ["send", i, "a"];
			yield ["cmd", i, "b"];
			if (KINDS[m.cfg.kind].timers && e.due === null) yield ["send", i, "d"];
		}
	}
	if (m.els.some((e) => e.due !== null)) yield ["tick"];
}

/** the elements an operation is addressed to */
function targets(op, model) {
	if (op[0] === "tick") return model.els.map((e, i) => (e.hadTimer ? i : -1)).filter((i) => i >= 0);
	if (op[0] === "arm") return [];
	return [op[1]];
}

function makeCheck() {
	let before = [];
	let armed = null;
	const own = []; // payloads handed to each element
	const timers = [];
	return {
		before(world, model, op) {
			before = world.els.map((el, i) => (el ? { shown: world.shown(i), content: snap(el.shadowRoot), truth: world.truth(i) } : null));
			model.els.forEach((e) => {
				e.hadTimer = e.due !== null;
			});
			const note = (o) => {
				if (o[0] === "arm") return note(o[2]);
				if (o[0] === "send" || o[0] === "cmd") {
					own[o[1]] ??= new Set();
					if (o[2] === "d") timers[o[1]] = (timers[o[1]] ?? 0) + 1;
					else own[o[1]].add(`${o[2]}${o[3]}`);
				}
			};
			note(op);
			if (op[0] === "arm") armed = op[2];
		},
		check(world, model, op) {
			const hit = new Set(targets(op, model));
			if (armed && !world.armed) {
				hit.add(armed[1]);
				armed = null;
			}
			for (let i = 0; i < world.n; i++) {
				const el = world.els[i];
				if (!el) continue;
				const truth = world.truth(i);
				if (el.shadowRoot.querySelector(".foreign")) return `element ${i} is rendered by the renderer instance of another element, which shows ${JSON.stringify(el.shadowRoot.textContent)}`;
				if (truth !== undefined) {
					for (const token of truth.match(/[a-z]\d*/g) ?? []) {
						if (token === "t" ? !timers[i] : !own[i]?.has(token)) return `element ${i} holds ${JSON.stringify(truth)}, which contains ${token}, never given to it`;
					}
				}
				const was = before[i];
				if (!was) {
					// just created
					if (!hit.has(i)) return `element ${i} appeared by itself`;
					if (truth !== undefined && truth !== model.els[i].log) return `new element ${i} starts from ${JSON.stringify(truth)}`;
					const s = world.shown(i);
					if (s !== null && s !== world.want(model.els[i].log, world.modeNow(i))) return `new element ${i} shows ${JSON.stringify(s)} at first`;
					continue;
				}
				if (hit.has(i)) continue;
				if (was.truth !== undefined && was.truth !== truth) return `element ${i} was not addressed, yet its state went from ${JSON.stringify(was.truth)} to ${JSON.stringify(truth)}`;
				if (was.content !== snap(el.shadowRoot)) return `element ${i} was not addressed, yet its content changed`;
			}
			return null;
		},
	};
}

export default {
	id: "C08",
	bounds: (tier) => `5 private-state source kinds x 2 renderers x {one tag, two tags of one factory, two factories over one blueprint}, 3 elements: every history of ${tier === "thorough" ? 6 : 5} operations incl. re-insertion of removed elements, with function renderers and (one less) with a class renderer that keeps state; reactions inside notifications with 2 elements`,
	assumptions: ["jsdom as the DOM"],
	*cases(tier) {
		const thorough = tier === "thorough";
		for (const renderer of ["jsx", "lit"])
			for (const kind of ISOLATED)
				for (const tags of [[0], [0, 0], [0, 1]]) {
					const cfg = { kind, renderer, n: 3, tags };
					const D = (thorough ? 6 : 5) - (renderer === "lit" || tags.length > 1 ? 1 : 0);
					for (const o of histories(cfg, D, (m) => ops(m))) yield { cfg, ops: o };
					if (renderer === "jsx") for (const o of histories({ ...cfg, form: "class" }, D - 1, (m) => ops(m))) yield { cfg: { ...cfg, form: "class" }, ops: o };
					if (tags.length === 1) yield* reactive({ ...cfg, n: 2 }, 1);
				}
	},
	exec(ctx, t) {
		const c = makeCheck();
		play(ctx, t, c.check, { before: c.before });
	},
};
