// Which callbacks run when events are dispatched at rendered elements, after any sequence of views.
import { sequences, upTo } from "../lib/enum.mjs";
import { defineXData } from "../lib/alphabet.mjs";
import { makeBuilder, ViewHost, viewTag } from "../lib/views.mjs";

const NAMES = {
	onClick: "click", onclick: "click", onCLICK: "click", onInput: "input", onValueChange: "value-change", onHTMLLoad: "html-load", onMYEvent: "my-event",
	onItem_added: "item-added", on_item_gone: "item-gone", "on-ready": "ready", "on-my-thing": "my-thing", "on:custom": "custom", onA: "a", onX2Done: "x2-done",
	onDOMContentLoaded: "dom-content-loaded", "onCheckout:done": "checkout:done", onFooBar_Baz: "foo-bar-baz", onUPPER_CASE: "upper-case",
	"onPre-hyphenated": "pre-hyphenated", on__deep: "deep", onABTest: "ab-test", onTouchSTART: "touch-start",
	onA_b_c: "a-b-c", on_one_two_Three: "one-two-three", onOneTwoThreeFour: "one-two-three-four", "on--double": "double", "on:-mixed_up": "mixed-up", on$cash: "cash", on9Lives: "9-lives",
	onXMLHttpDone: "xml-http-done", "ona-b-c": "a-b-c", "onName:space_d": "name:space-d",
};
// events the platform itself dispatches: all-lower-case spelling and a capitalised one
const PLATFORM = ["abort", "blur", "change", "close", "copy", "cut", "error", "focus", "focusin", "focusout", "keydown", "keyup", "load", "mousedown", "mouseenter", "mouseleave", "paste", "pointerdown", "reset", "resize", "scroll", "select", "submit", "toggle", "touchstart", "touchmove", "transitionend", "wheel"];
for (const name of PLATFORM) NAMES[`on${name[0].toUpperCase()}${name.slice(1)}`] = NAMES[`on${name}`] = name;
const EVENTS = [...new Set(Object.values(NAMES))];
const VALUES = ["~", "$h1", "$h2", null, false, "text", "@obj", "$undef", 7];
const withHandler = (tag, key, v, extra = {}) => [tag, v === "~" ? { ...extra } : { ...extra, [key]: v }, ...(tag === "input" ? [] : ["t"])];

function* cases(tier) {
	const thorough = tier === "thorough";
	// H1: one handler through every value sequence, patched in place or inside rebuilt lists
	const around = {
		only: (b) => b,
		stay: (b, i) => ["div", {}, b, `s${i}`],
		rebuilt: (b, i) => ["div", {}, ...(i % 2 ? ["x", b] : [b, "x"])],
		grow: (b, i) => ["div", {}, b, ...Array.from({ length: i }, () => ["p", {}])],
	};
	for (const tag of ["button", "svg", "x-data"])
		for (const [name, f] of Object.entries(around)) {
			if (tag !== "button" && name !== "stay") continue;
			for (const q of sequences(VALUES, thorough && name === "stay" && tag === "button" ? 5 : tag === "button" ? 4 : 3)) yield { fam: `H1:${name}`, views: q.map((v, i) => f(withHandler(tag, "onClick", v), i)) };
		}
	// N: names; also one name giving way to another
	for (const key of Object.keys(NAMES)) for (const q of sequences(["~", "$h1", "$h2", null], 3)) yield { fam: "N", views: q.map((v) => ["div", v === "~" ? {} : { [key]: v }, ["i", {}], "t"]) };
	const keys = Object.keys(NAMES).filter((k) => !PLATFORM.includes(NAMES[k]) || NAMES[k] === "focus" || NAMES[k] === "change");
	for (const k1 of keys) for (const k2 of keys) if (NAMES[k1] !== NAMES[k2]) for (const v of ["$h1", "$h2"]) yield { fam: "N2", views: [withHandler("div", k1, "$h1"), withHandler("div", k2, v), withHandler("div", k1, "$h2")] };
	// H2: two events on one element, same or different callbacks
	const two = [];
	for (const a of ["~", "$h1", "$h2", null]) for (const b of ["~", "$h1", "$h2", "text"]) {
		const p = {};
		if (a !== "~") p.onClick = a;
		if (b !== "~") p.onInput = b;
		two.push(["button", p, "t"]);
	}
	for (const q of sequences(two, thorough ? 4 : 3)) yield { fam: "H2", views: q };
	// H3: lists of elements with handlers
	const leaves = [["button", { onClick: "$h1" }], ["button", { onClick: "$h2" }], ["button", {}], ["p", { onClick: "$h1" }], "a"];
	const lists = [...upTo(leaves, 2), ...(thorough ? sequences(leaves.slice(0, 4), 3) : [[leaves[0], leaves[1], leaves[2]], [leaves[1], leaves[0], leaves[2]], [leaves[2], leaves[3], leaves[0]]])];
	for (const q of sequences(lists, thorough ? 3 : 3)) {
		if (thorough && q.every((l) => l.length === 3)) continue;
		yield { fam: "H3", views: q.map((l) => ["div", {}, ...l]) };
	}
	for (const q of sequences(lists, 2)) yield { fam: "H3R", views: q.map((l) => ["div", {}, ...l]), attrs: { "data-ignite-nodiff": "" } };
	// H4: nesting and bubbling
	const nest = [];
	for (const a of ["~", "$h1", "$h2"]) for (const b of ["~", "$h1", "$h2"]) nest.push(["div", a === "~" ? {} : { onClick: a }, ["span", {}, withHandler("button", "onClick", b)]]);
	for (const q of sequences(nest, thorough ? 4 : 3)) yield { fam: "H4", views: q };
	// D: the handler itself re-renders
	const dyn = [["div", {}, ["button", { onClick: "$n1" }]], ["div", {}, ["button", { onClick: "$n2" }]], ["div", {}, ["button", {}]], ["div", { onClick: "$n1" }, ["button", { onClick: "$n2" }]], ["div", { onClick: "$n2" }, ["button", { onClick: "$n1" }]], ["div", {}, "x", ["button", { onClick: "$n1" }]], ["div", {}, ["button", { onClick: "$h1" }]]];
	for (const q of sequences(dyn, thorough ? 5 : 4)) yield { fam: "D", views: q, dynamic: true };
}

/** expected handlers: elements in document order -> {event: handler name} */
function expect(view, out = []) {
	if (!Array.isArray(view)) return out;
	const [, props, ...kids] = view;
	const on = {};
	for (const [k, v] of Object.entries(props)) if (/^on./.test(k) && typeof v === "string" && /^\$[hn]/.test(v)) on[NAMES[k]] = v.slice(1);
	const me = { on, parent: null };
	out.push(me);
	for (const k of kids) {
		const from = out.length;
		expect(k, out);
		if (out.length > from) out[from].parent = me;
	}
	return out;
}

export default {
	id: "C04",
	bounds: (tier) => `all value sequences of one handler (length ${tier === "thorough" ? "3-5" : "3-4"}, 9 values) in 4 surroundings and 3 element kinds; ${Object.keys(NAMES).length} prop spellings against ${EVENTS.length} event names, also replacing one another; two events on one element; all triples of element lists; nested handlers with bubbling; handlers that re-render during dispatch (length ${tier === "thorough" ? 5 : 4}); after every render every event is dispatched at every element`,
	assumptions: ["DOM event dispatch is jsdom's", "two spellings of one event name on the same element in the same view are outside the alphabet"],
	*cases(tier) {
		yield* cases(tier);
	},
	exec(ctx, t) {
		const realm = ctx.realm(1500);
		if (realm !== this.lastRealm) {
			this.lastRealm = realm;
			const self = this;
			// declares no parameter
			const bare = (f) => function () { return f.apply(this, arguments); };
			const handler = (name) =>
				function (event) {
					self.calls.push([name, event, event.currentTarget]);
					if (name[0] === "n") self.next?.();
				};
			this.build = makeBuilder(realm.api, { objects: { obj: { handleEvent() { self.calls.push(["object", null, null]); } } }, handlers: { h1: handler("h1"), h2: bare(handler("h2")), n1: handler("n1"), n2: bare(handler("n2")) } });
			defineXData(realm);
			viewTag(realm);
		}
		realm.takeErrors();
		this.calls = [];
		this.next = null;
		const host = new ViewHost(realm, { first: this.build(t.views[0]), attrs: t.attrs ?? {} });
		const root = host.root.querySelector("[data-ignite-jsx-root]");
		const elements = () => [...root.querySelectorAll("*")];
		const fail = (msg, i) => {
			ctx.fail(`${msg}\n views ${JSON.stringify(t.views.slice(0, i + 1))}`, { trace: { ...t, views: t.views.slice(0, i + 1) } });
			host.close();
		};
		let at = 0;
		if (t.dynamic) {
			// each click may move on to the next view; the current view decides who runs
			for (let round = 0; round < t.views.length + 1; round++) {
				const info = expect(t.views[at]);
				const els = elements();
				const index = els.findIndex((e) => e.localName === "button");
				const chain = [];
				for (let n = info[index]; n; n = n.parent) if (n.on.click) chain.push([n.on.click, els[info.indexOf(n)]]);
				this.calls = [];
				let moved = false;
				this.next = () => {
					if (moved) return;
					moved = true;
					if (at + 1 < t.views.length) host.render(this.build(t.views[++at]));
				};
				const here = at;
				els[index].dispatchEvent(new realm.window.MouseEvent("click", { bubbles: false }));
				ctx.step();
				const target = info[index].on.click;
				const got = this.calls.map((c) => c[0]).join();
				if (got !== (target ?? "")) return fail(`round ${round}: clicking ran [${got}] instead of [${target ?? ""}]`, here);
				ctx.state(`${at}|${got}`);
				if (!moved && at + 1 < t.views.length) host.render(this.build(t.views[++at]));
			}
		} else
			for (let i = 0; i < t.views.length; i++) {
				if (i) host.render(this.build(t.views[i]));
				const info = expect(t.views[i]);
				const els = elements();
				if (els.length !== info.length) return fail("the content does not have the described structure", i);
				const events = t.fam[0] === "N" ? EVENTS : ["click", "input"];
				for (let e = 0; e < els.length; e++)
					for (const type of events)
						for (const bubbles of [false, true]) {
							this.calls = [];
							const event = new realm.window.Event(type, { bubbles });
							els[e].dispatchEvent(event);
							ctx.step();
							const want = [];
							for (let n = info[e]; n; n = bubbles ? n.parent : null) if (n.on[type]) want.push([n.on[type], els[info.indexOf(n)]]);
							const got = this.calls;
							if (got.length !== want.length || got.some((c, k) => c[0] !== want[k][0] || c[1] !== event || c[2] !== want[k][1]))
								return fail(`${type} at element ${e} (${bubbles ? "" : "not "}bubbling) ran [${got.map((c) => c[0])}] instead of [${want.map((w) => w[0])}]`, i);
							ctx.state(`${type}|${want.map((w) => w[0])}|${info.length}`);
						}
			}
		const errors = realm.takeErrors();
		if (errors.length) ctx.fail(`threw ${errors[0]?.stack ?? errors[0]}`);
		host.close();
	},
};
