// A component whose rendered content contains another component.
// outer: kind `a`; inner: kind `b`, or (b = "same"/"sister") over the same shared source as the outer.
// Operations: "o" event to the outer, "c" command of the outer, "i" event to the inner, "j" through the inner's
// send function, "k" an event bubbling out of the inner's content (it is inside the outer's content, too),
// "x" outside change of the outer's source, "y" of the inner's, "-" remove / "+" insert the outer.
import { KINDS, SHARED } from "./sources.mjs";
import { setupRenderer, World } from "./world.mjs";

export function* pairs(depth, renderers = ["jsx", "lit"]) {
	for (const renderer of renderers)
		for (const a of Object.keys(KINDS))
			for (const b of [...Object.keys(KINDS), ...(SHARED.includes(a) ? ["same", "sister"] : [])]) {
				const one = b === "same" || b === "sister";
				const bShared = one || KINDS[b].shared;
				const aShared = KINDS[a].shared;
				const go = function* (n, acc, on, left) {
					if (n === 0) {
						yield acc;
						return;
					}
					if (on) {
						for (const op of [...(one ? ["o", "i"] : ["o", "c", "i", "j"]), ...(one || a === b || (KINDS[a].lib === KINDS[b].lib && a !== "slice" && b !== "slice") ? ["k"] : [])]) yield* go(n - 1, acc + op, on, left);
						if (aShared || !left) yield* go(n - 1, `${acc}-`, false, true);
					} else if (aShared) yield* go(n - 1, `${acc}+`, true, left);
					if (aShared && (one || !on || acc.endsWith("+"))) yield* go(n - 1, `${acc}x`, on, left);
					if (bShared && !one) yield* go(n - 1, `${acc}y`, on, left);
				};
				for (const ops of go(renderer === "lit" ? depth - 1 : depth, "", true, false)) yield { pair: [a, b], renderer, ops };
			}
}

export function playPair(ctx, t) {
	const realm = ctx.realm(150);
	if (realm.worldRenderer && realm.worldRenderer !== t.renderer) {
		ctx.closeRealm();
		return playPair(ctx, t);
	}
	setupRenderer(realm, t.renderer);
	realm.takeErrors();
	realm.takeLogs();
	const [a, b] = t.pair;
	const one = b === "same" || b === "sister";
	const outer = new World(realm, { kind: a, renderer: t.renderer, n: 1, view: "child", ...(one ? { tags: b === "same" ? [0, 0] : [0, 1], assign: [0] } : {}) });
	const inner = one ? outer : new World(realm, { kind: b, renderer: t.renderer, n: 1 });
	outer.childTag = one ? outer.tags[1] : inner.tags[0];
	let seq = 0;
	const zombies = new WeakSet();
	const find = () => outer.els[0].shadowRoot.querySelector(outer.childTag);
	const holds = (w, el) => (KINDS[w.cfg.kind].shared ? w.src.log() : w.infoOf(el).lastArgs?.now());
	const mode = (w, el) => (KINDS[w.cfg.kind].lib !== "xstate" ? "" : KINDS[w.cfg.kind].shared ? w.src.source.getSnapshot().value : w.infoOf(el).lastArgs?.nowMode());
	const shown = (el) => {
		const root = el.shadowRoot;
		return `${root.querySelector(".log")?.textContent}~${root.querySelector(".sh")?.textContent}~${root.querySelector("div")?.className}~${root.querySelectorAll(".log").length}`;
	};
	const given = new Map(); // private inner element -> what it was given
	const log = { outer: "", inner: "" }; // what the sources were given
	const give = (which, child, token) => {
		if (one) log.outer += token;
		else if (which === "outer") log.outer += token;
		else if (KINDS[b].shared) log.inner += token;
		else given.set(child, `${given.get(child) ?? ""}${token}`);
	};
	let kept = null;
	const check = () => {
		const errors = realm.takeErrors();
		if (errors.length) return `an exception was raised: ${errors[0]?.stack ?? errors[0]}`;
		const el = outer.els[0];
		if (KINDS[a].shared && outer.src.log() !== log.outer) return `the source of the outer component holds ${outer.src.log()}, it was given ${log.outer}`;
		if (!one && KINDS[b].shared && inner.src.log() !== log.inner) return `the source of the inner component holds ${inner.src.log()}, it was given ${log.inner}`;
		if (!el.isConnected) return null;
		const state = holds(outer, el);
		if (state !== log.outer) return `the outer component holds ${state}, it was given ${log.outer}`;
		if (shown(el) !== outer.want(state, mode(outer, el))) return `the outer component shows ${shown(el)}, its source holds ${state}`;
		const child = find();
		const wantChild = (state.match(/[a-z]/g)?.length ?? 0) % 3 !== 2;
		if (!child !== !wantChild) return `the inner component is ${child ? "" : "not "}there in state ${state}`;
		if (!child) {
			kept = null;
			return null;
		}
		if (child.getAttribute("title") !== state) return `the inner component has title ${child.getAttribute("title")} in state ${state}`;
		if (kept && kept !== child) return `the inner component was replaced in state ${state}`;
		kept = child;
		if (zombies.has(child)) return null;
		const own = holds(inner, child);
		if (!one && !KINDS[b].shared && own !== (given.get(child) ?? "")) return `the inner component holds ${own}, it was given ${given.get(child) ?? ""}`;
		if (shown(child) !== inner.want(own, mode(inner, child))) return `the inner component shows ${shown(child)}, its source holds ${own}`;
		return null;
	};
	try {
		outer.apply(["create", 0]);
		outer.apply(["ins", 0, "P"]);
		let bad = check();
		for (const op of bad ? "" : t.ops) {
			const el = outer.els[0];
			const child = find();
			const p = seq++;
			if (op === "o" || op === "c" || op === "x") give("outer", null, `${op === "o" ? "a" : "b"}${p}`);
			if (op === "y") give("inner", null, `b${p}`);
			if (op === "o") outer.apply(["send", 0, "a", p]);
			else if (op === "c") outer.apply(["cmd", 0, "b", p]);
			else if (op === "x") outer.apply(["ext", "b", p]);
			else if (op === "y") inner.apply(["ext", "b", p]);
			else if (op === "k") {
				if (one) kept = null; // two changes: it may go and come back
				if (child) {
					if (!zombies.has(child)) give("inner", child, `a${p}`);
					give("outer", null, `a${p}`);
					child.shadowRoot.querySelector(".go").dispatchEvent(new realm.window.CustomEvent("send", { detail: inner.d.event("a", p), bubbles: true, composed: true }));
				}
			}
			else if (op === "+") outer.apply(["ins", 0, "P"]);
			else if (op === "-") {
				if (child && !one && !KINDS[b].shared) zombies.add(child);
				outer.apply(["rm", 0]);
			} else if (child && !zombies.has(child)) {
				const e = inner.d.event("a", p);
				give("inner", child, `a${p}`);
				if (op === "i") child.dispatchEvent(new realm.window.CustomEvent("send", { detail: e }));
				else inner.infoOf(child).lastArgs.send(e);
			}
			ctx.step();
			ctx.state(`${t.pair}|${holds(outer, el)}|${child ? holds(inner, child) : ""}|${el.isConnected}`);
			bad = check();
			if (bad) {
				bad += `\n after ${JSON.stringify(op)} of ${JSON.stringify(t)}`;
				break;
			}
		}
		if (bad) ctx.fail(bad);
	} finally {
		if (!one) inner.close();
		outer.close();
	}
}
