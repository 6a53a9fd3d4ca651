// A first render gives exactly the content the view describes. The oracle builds the described DOM
// on its own, from the view notation, with HTML attribute names.
import { sequences, upTo } from "../lib/enum.mjs";
import { DECORATED, defineXData, OBJECTS, PROP_GROUPS, RICH, withProp } from "../lib/alphabet.mjs";
import { makeBuilder, snap, ViewHost, viewTag } from "../lib/views.mjs";

const SVG = "http://www.w3.org/2000/svg";

// how an HTML prop is expressed: attribute name, and whether it is a flag
const HTML_ATTR = {
	id: "id", title: "title", tabIndex: "tabindex", lang: "lang", placeholder: "placeholder", list: "list", maxLength: "maxlength",
	type: "type", name: "name", htmlFor: "for", for: "for", href: "href", colSpan: "colspan", alt: "alt", role: "role", width: "width",
	form: "form", src: "src", rel: "rel", target: "target", min: "min", max: "max", step: "step", rows: "rows", slot: "slot",
};
const HTML_FLAG = new Set(["hidden", "disabled", "readOnly", "open", "multiple", "required", "autofocus", "noValidate"]);
const LIVE = new Set(["value", "checked", "indeterminate"]);
const ENUM = { draggable: { true: "true" }, translate: { true: "yes" } };
// SVG presentation attributes are hyphenated, the others keep their spelling
const SVG_ATTR = {
	strokeWidth: "stroke-width", fillOpacity: "fill-opacity", textAnchor: "text-anchor", strokeDasharray: "stroke-dasharray", clipPath: "clip-path",
	fontSize: "font-size", viewBox: "viewBox", preserveAspectRatio: "preserveAspectRatio", gradientUnits: "gradientUnits", patternUnits: "patternUnits",
	clipPathUnits: "clipPathUnits", spreadMethod: "spreadMethod", startOffset: "startOffset", textLength: "textLength", lengthAdjust: "lengthAdjust",
	gradientTransform: "gradientTransform", refX: "refX", markerWidth: "markerWidth", stdDeviation: "stdDeviation", tabIndex: "tabindex", tabindex: "tabindex",
	dataName: "data-name", ariaLabel: "aria-label", "stroke-width": "stroke-width", "xlink:href": "xlink:href", "data-x": "data-x", fill: "fill", cx: "cx", cy: "cy", r: "r",
	x: "x", id: "id", href: "href", width: "width", d: "d", "aria-label": "aria-label", role: "role", stroke_width: "stroke-width", pathLength: "pathLength",
};
// the names SVG itself spells with capitals
for (const k of "attributeName attributeType baseFrequency calcMode clipPathUnits diffuseConstant edgeMode filterUnits glyphRef gradientTransform gradientUnits kernelMatrix kernelUnitLength keyPoints keySplines keyTimes lengthAdjust limitingConeAngle markerHeight markerUnits markerWidth maskContentUnits maskUnits numOctaves pathLength patternContentUnits patternTransform patternUnits pointsAtX pointsAtY pointsAtZ preserveAlpha preserveAspectRatio primitiveUnits refX refY repeatCount repeatDur requiredExtensions specularConstant specularExponent spreadMethod startOffset stdDeviation stitchTiles surfaceScale systemLanguage tableValues targetX targetY textLength viewBox xChannelSelector yChannelSelector zoomAndPan".split(" ")) SVG_ATTR[k] = k;
for (const k of ["stopColor", "stopOpacity", "dominantBaseline", "strokeLinecap", "strokeLinejoin", "fillRule", "clipRule", "markerEnd", "vectorEffect", "fontFamily", "letterSpacing", "floodColor", "pointerEvents", "ariaHidden", "dataTestId"]) SVG_ATTR[k] = k.replace(/[A-Z]/g, (c) => `-${c.toLowerCase()}`);
SVG_ATTR.on = "on";

/** lone: the entry point hands over a single child as such, so a lone empty child is no child */
function describe(doc, view, into, ns, lone) {
	const drop = (kids) => (lone && kids.length === 1 && (kids[0] === null || kids[0] === "$undef") ? [] : kids);
	const odd = { $nan: NaN, $inf: -Infinity };
	if (view in odd && typeof view === "string") return void into.append(doc.createTextNode(String(odd[view])));
	if (view === "$undef" || view === null || typeof view === "boolean") return void into.append(doc.createComment(""));
	if (typeof view === "string" || typeof view === "number") return void into.append(doc.createTextNode(String(view)));
	if (Array.isArray(view)) {
		const [tag, props, ...kids] = view;
		const svg = tag === "svg" || ns === SVG;
		const el = svg ? doc.createElementNS(SVG, tag) : doc.createElement(tag);
		into.append(el);
		const late = [];
		for (const [key, raw] of Object.entries(props ?? {})) {
			if (raw === "$undef" || raw === null || raw === false) continue;
			if (key === "ref" || key === "children") continue;
			if (key === "class" || key === "className") {
				if (raw !== "") el.setAttribute("class", String(raw));
			} else if (key === "style") {
				if (typeof raw === "string") el.setAttribute("style", raw);
				else
					for (const [k, v] of Object.entries(raw)) {
						if (v === null || v === "$undef") continue;
						el.style.setProperty(k.startsWith("--") ? k : k.replace(/[A-Z]/g, (c) => `-${c.toLowerCase()}`), String(v));
					}
			} else if (/^on./.test(key)) continue;
			else if (svg) {
				if (!(key in SVG_ATTR)) throw new Error(`oracle: svg ${key}`);
				el.setAttribute(SVG_ATTR[key], String(raw));
			} else if (tag === "x-data" && key === "data") late.push(["data", OBJECTS[raw.slice(1)] ?? raw]);
			else if (ENUM[key]) el.setAttribute(key, ENUM[key][String(raw)] ?? String(raw));
			else if (LIVE.has(key) && ["input", "textarea", "select"].includes(tag)) late.push([key, raw]);
			else if (key === "value" && (tag === "progress" || tag === "option")) el.setAttribute("value", String(raw));
			else if (HTML_FLAG.has(key)) el.setAttribute(key.toLowerCase(), "");
			else if (key === "on") el.setAttribute("on", String(raw));
			else if (key in HTML_ATTR) el.setAttribute(HTML_ATTR[key], String(raw));
			else if (key.includes("-") || tag.includes("-")) el.setAttribute(key, String(raw));
			else throw new Error(`oracle: ${tag} ${key}`);
		}
		const inner = svg && tag !== "foreignObject" ? SVG : undefined;
		if (tag !== "slot") for (const k of drop(kids)) describe(doc, k, el, inner, lone);
		for (const [k, v] of late) el[k] = v;
		return;
	}
	for (const key of ["f", "a", "c"]) if (view[key]) return void (key === "a" ? view.a : drop(view[key])).forEach((k) => describe(doc, k, into, ns, lone));
	if (view.w) return describe(doc, ["b", { class: "wrap" }, ...view.w], into, ns, lone);
	if (view.u) return void into.append(doc.createComment(""));
	throw new Error(`oracle: ${JSON.stringify(view)}`);
}

const LEAVES = ["a", 0, null, ["p", {}], ["p", { class: "x" }, "t"], { f: ["f1", ["i", {}]] }, { a: [null, "g"] }, { c: [["em", {}, "h"]] }, { w: ["k"] }];
const SVG_LEAVES = ["t", null, ["g", {}, ["path", { d: "M0" }]], ["a", { href: "#" }, "l"], ["foreignObject", {}, ["div", { tabIndex: 1 }, ["a", { href: "#" }]], ["svg", {}, ["a", {}]]], { f: [["circle", { r: 1 }], "x"] }, { c: [["title", {}, "T"]] }, ["style", {}, "a{}"]];
const WRAPS = [(k) => ["div", {}, ...k], (k) => ({ f: k }), (k) => ({ a: k }), (k) => ({ c: k }), (k) => ({ w: k })];

function* views(tier) {
	const thorough = tier === "thorough";
	yield* RICH;
	for (const d of DECORATED) yield d;
	for (const g of PROP_GROUPS) for (const v of g.values) yield withProp(g, v);
	// two props, both orders
	for (const g1 of PROP_GROUPS)
		for (const g2 of PROP_GROUPS) {
			if (g1 === g2 || g1.tag !== g2.tag || g1.fixed || g2.fixed || g1.svg) continue;
			const both = new Set([g1.key, g2.key]);
			if ((both.has("class") && both.has("className")) || (both.has("for") && both.has("htmlFor")) || (both.has("tabindex") && both.has("tabIndex")) || both.has("type")) continue;
			for (const a of g1.values) for (const b of g2.values) yield withProp(g2, b, a === "~" ? {} : { [g1.key]: a });
		}
	// child lists
	for (const l of upTo(LEAVES, thorough ? 4 : 3)) for (const w of WRAPS) yield w(l);
	for (const l of upTo(SVG_LEAVES, thorough ? 4 : 3)) {
		yield ["svg", {}, ...l];
		if (l.length < 3) yield ["svg", {}, ["g", {}, { f: l }]];
		if (l.length < 3) yield ["svg", {}, { c: [{ a: l }, ["g", {}]] }];
	}
	// wrappers inside wrappers
	for (const ws of sequences(WRAPS, thorough ? 4 : 3)) for (const leaf of [...LEAVES, ["svg", {}, ["a", {}]]]) yield ws.reduceRight((acc, w) => w([acc, "z"]), leaf);
	// svg attribute names
	for (const key of Object.keys(SVG_ATTR)) for (const tag of ["g", "marker", "text"]) for (const v of ["1", 2, true, null]) yield ["svg", {}, [tag, { [key]: v }]];
	// selects
	for (const opts of upTo(["a", "b", "c"], 3)) {
		if (new Set(opts).size !== opts.length) continue;
		for (const v of ["a", "b", "c"]) if (opts.includes(v)) yield ["select", { value: v }, ...opts.map((o) => ["option", { value: o }, o])];
	}
	for (const tag of ["svg", "div", "input", "select", "slot", "x-data", "textarea"]) yield [tag, { ref: 1, class: "r" }];
}

const PRIMITIVES = ["", " ", "a", "0", 0, -1, 1.5, 1e21, "$nan", "$inf", true, false, null, "$undef", "<b>&amp;", "\u00a0", "\u{1F600}", "null"];
const STYLES = [{ WebkitLineClamp: "2" }, { "--myVar": "1" }, { "--my-var": "2", "--MYVAR": "3" }, { fontSize: "1px", "line-height": 0 }, { zIndex: 0 }, { zIndex: -1, opacity: "" }, { borderTopLeftRadius: "1px" }, { display: "none", color: false }];
function* moreViews() {
	for (const tag of ["div", "svg", "textarea"]) for (const a of PRIMITIVES) yield [tag, {}, a];
	for (const a of PRIMITIVES) {
		yield { f: [a] };
		yield { c: [a] };
		yield { a: [a] };
		for (const b of PRIMITIVES) yield ["p", {}, a, b];
	}
	yield* PRIMITIVES;
	for (const tag of ["div", "svg", "x-data"]) for (const a of STYLES) {
		yield [tag, { style: a }];
		for (const b of STYLES) yield [tag, { style: { ...a, ...b } }];
	}
	for (const tag of ["div", "x-data", "svg"]) for (const v of ["tap", 0, true, false, null]) yield [tag, { on: v, class: "c" }];
}

const FLAVOURS = ["jsx", "jsxs", "jsxDEV", "auto"];

export default {
	id: "C02",
	bounds: (tier) => `${[...views(tier), ...moreViews()].length} views: every prop value and every pair of props of ${PROP_GROUPS.length} prop groups, all child lists of length <= ${tier === "thorough" ? 4 : 3} over ${LEAVES.length} HTML and ${SVG_LEAVES.length} SVG leaves in 5 wrappers, all nestings of ${tier === "thorough" ? 4 : 3} wrappers, ${Object.keys(SVG_ATTR).length} SVG attribute names, ${RICH.length} realistic views; each through 4 JSX entry points, keyed and unkeyed, as frozen objects and rendered twice`,
	assumptions: ["DOM semantics are jsdom's", "the content of a <slot> in a view is not rendered (the renderer drops it by design)", "a <select> without an own option for its value is outside the alphabet"],
	*cases(tier) {
		for (const view of views(tier)) yield { view };
		for (const view of moreViews()) yield { view };
	},
	exec(ctx, t) {
		const realm = ctx.realm(1200);
		if (realm !== this.lastRealm) {
			this.lastRealm = realm;
			defineXData(realm);
			viewTag(realm);
			this.builders = FLAVOURS.map((flavour) => [flavour, makeBuilder(realm.api, { objects: OBJECTS, flavour })]);
			const keyed = { ...realm.api, jsxRuntime: () => ({ ...realm.api.jsxRuntime(), jsx: (a, b) => realm.api.jsxRuntime().jsx(a, b, "k1"), jsxs: (a, b) => realm.api.jsxRuntime().jsxs(a, b, 7) }) };
			this.builders.push(["keyed", makeBuilder(keyed, { objects: OBJECTS, flavour: "auto" })]);
		}
		const doc = realm.document;
		const idOf = (v) => (v === OBJECTS.o1 ? "o1" : v === OBJECTS.o2 ? "o2" : String(v));
		const wanted = [true, false].map((lone) => {
			const box = doc.createElement("div");
			doc.body.append(box);
			describe(doc, t.view, box, undefined, lone);
			const s = [...box.childNodes].map((n) => snap(n, { props: ["data"], idOf })).join("");
			box.remove();
			return s;
		});
		const inner = (h) => [...h.root.querySelector("[data-ignite-jsx-root]").childNodes].map((n) => snap(n, { props: ["data"], idOf })).join("");
		realm.takeErrors();
		for (const [flavour, build] of this.builders) {
			const want = wanted[flavour === "jsxs" ? 1 : 0];
			const view = build(t.view);
			const before = fingerprint(view);
			const h = new ViewHost(realm, { first: view });
			ctx.step();
			const report = (msg, got) => ctx.fail(`${msg} (${flavour})\n got  ${got}\n want ${want}\n view ${JSON.stringify(t.view)}`);
			let got = inner(h);
			const errors = realm.takeErrors();
			if (errors.length) report(`rendering threw ${errors[0]?.stack ?? errors[0]}`, got);
			else if (got !== want) report("a first render differs from the described content", got);
			ctx.state(got);
			if (fingerprint(view) !== before) report("rendering modified the view", got);
			// the same view object elsewhere, and again, and frozen
			if (flavour === "auto") {
				deepFreeze(view);
				const h2 = new ViewHost(realm, { first: view });
				got = inner(h2);
				if (got !== want) report("rendering the same view object elsewhere gives something else", got);
				h2.render("other");
				h2.render(view);
				got = inner(h2);
				if (got !== want) report("rendering the same view object again gives something else", got);
				h.render(view);
				if (inner(h) !== want) report("rendering an unchanged view gives something else", inner(h));
				const e2 = realm.takeErrors();
				if (e2.length) report(`rendering a frozen view threw ${e2[0]?.stack ?? e2[0]}`, got);
				h2.close();
			}
			h.close();
		}
		// building does not touch the props it is given
		const lib = realm.api.jsxRuntime();
		if (Array.isArray(t.view)) {
			// one props object for two elements, with every shape of children, frozen or not
			const kids = { none: [], one: ["x"], several: [["x", "y"]], nested: [["x", ["y", null]]], empty: [[]], nil: [null], undef: [undefined], zero: [0] };
			for (const [name, f] of Object.entries({ jsx: lib.jsx, jsxs: lib.jsxs, jsxDEV: realm.api.jsxDevRuntime().jsxDEV }))
				for (const [shape, list] of Object.entries(kids))
					for (const frozen of [false, true]) {
						const make = () => ({ ...t.view[1], ...(list.length ? { children: structuredClone(list[0]) } : {}) });
						const given = make();
						if (frozen) deepFreeze(given);
						const want = fingerprint(make());
						try {
							const first = f(t.view[0], given);
							const a = fingerprint(first);
							f("b", given);
							f(t.view[0], given);
							if (fingerprint(given) !== want) return ctx.fail(`${name} modified the props it was given (children: ${shape}) for ${JSON.stringify(t.view)}: ${fingerprint(given)} instead of ${want}`);
							if (fingerprint(first) !== a) return ctx.fail(`${name}: using the props again modified the element built first (children: ${shape}) for ${JSON.stringify(t.view)}`);
						} catch (e) {
							return ctx.fail(`${name} threw ${e} for ${frozen ? "frozen " : ""}props of ${JSON.stringify(t.view)} (children: ${shape})`);
						}
						ctx.step();
					}
		}
	},
};

function fingerprint(v, seen = new Set()) {
	if (typeof v === "function" || typeof v === "symbol") return String(v);
	if (v === null || typeof v !== "object") return `${typeof v}:${String(v)}`;
	if (seen.has(v)) return "@";
	seen.add(v);
	const r = Array.isArray(v) ? `[${v.map((x) => fingerprint(x, seen)).join()}]` : `{${Object.keys(v).map((k) => `${k}=${fingerprint(v[k], seen)}`).join()}}`;
	seen.delete(v);
	return r;
}
function deepFreeze(v) {
	if (v === null || typeof v !== "object" || Object.isFrozen(v) || v === OBJECTS.o1 || v === OBJECTS.o2) return;
	Object.freeze(v);
	for (const k of Object.keys(v)) deepFreeze(v[k]);
}
