// View alphabets shared by the renderer checks. "~" = the prop is absent.

export const PROP_GROUPS = [
	{ tag: "div", key: "class", values: ["~", "a", "b c", "", null, false, "$undef"] },
	{ tag: "div", key: "className", values: ["~", "a", "b c", "", null, false] },
	{
		tag: "div",
		key: "style",
		values: [
			"~", { color: "red" }, { color: "blue" }, { color: "red", opacity: "0.5" }, { color: null, opacity: "0.5" },
			{ color: "$undef" }, { backgroundColor: "red", "--x": "1" }, { "--myVar": "1" }, {}, { width: "10px" }, { width: 20 }, { opacity: 0 },
			"color: green;", "opacity: 0.3", "", null, false,
		],
	},
	{ tag: "div", key: "id", values: ["~", "i1", "i2", null, false] },
	{ tag: "div", key: "title", values: ["~", "t1", "t2", null, "", "$undef"] },
	{ tag: "div", key: "hidden", values: ["~", true, false, null] },
	{ tag: "div", key: "tabIndex", values: ["~", 0, 1, null] },
	{ tag: "div", key: "lang", values: ["~", "en", "fr", null] },
	{ tag: "div", key: "data-x", values: ["~", "1", 0, true, false, null, "", "$undef"] },
	{ tag: "div", key: "aria-label", values: ["~", "l1", "l2", null, false] },
	{ tag: "div", key: "role", values: ["~", "button", "alert", null] },
	{ tag: "input", key: "value", values: ["~", "a", "b", "", null, false, 5, "$undef"] },
	{ tag: "input", key: "checked", fixed: { type: "checkbox" }, values: ["~", true, false, null, "$undef"] },
	{ tag: "input", key: "disabled", values: ["~", true, false, null] },
	{ tag: "input", key: "readOnly", values: ["~", true, false, null] },
	{ tag: "input", key: "indeterminate", fixed: { type: "checkbox" }, values: ["~", true, false] },
	{ tag: "input", key: "placeholder", values: ["~", "p", "q", null] },
	{ tag: "input", key: "list", values: ["~", "l1", "l2", null] },
	{ tag: "input", key: "maxLength", values: ["~", 3, 5, null] },
	{ tag: "input", key: "type", values: ["~", "text", "number", "password", null] },
	{ tag: "input", key: "name", values: ["~", "n1", "n2", null] },
	{ tag: "textarea", key: "value", values: ["~", "a", "b", "", null] },
	{ tag: "progress", key: "value", values: ["~", 0.5, 0.75, 0, null] },
	{ tag: "button", key: "disabled", values: ["~", true, false, null, "$undef"] },
	{ tag: "button", key: "type", values: ["~", "button", "submit", null] },
	{ tag: "label", key: "htmlFor", values: ["~", "f1", "f2", null] },
	{ tag: "label", key: "for", values: ["~", "f1", "f2", null] },
	{ tag: "details", key: "open", values: ["~", true, false, null] },
	{ tag: "a", key: "href", values: ["~", "#x", "#y", null] },
	{ tag: "td", key: "colSpan", values: ["~", 2, 3, null] },
	{ tag: "img", key: "alt", values: ["~", "x", "y", "", null] },
	{ tag: "svg", key: "viewBox", values: ["~", "0 0 1 1", "0 0 2 2", null] },
	{ tag: "svg", key: "class", values: ["~", "a", "b", null] },
	{ tag: "svg", key: "className", values: ["~", "a", "b", null] },
	{ tag: "svg", key: "style", values: ["~", { color: "red" }, { opacity: "0.5" }, null] },
	{ tag: "svg", key: "strokeWidth", values: ["~", "1", 2, null, false] },
	{ tag: "svg", key: "fill", values: ["~", "red", "none", null] },
	{ tag: "svg", key: "tabindex", values: ["~", 0, "1", null] },
	{ tag: "svg", key: "id", values: ["~", "i1", "i2", null] },
	{ tag: "svg", key: "preserveAspectRatio", values: ["~", "none", "xMidYMid", null] },
	{ tag: "svg", key: "tabIndex", values: ["~", 0, "1", null] },
	{ tag: "marker", key: "refX", svg: true, values: ["~", 1, "2", null] },
	{ tag: "button", key: "form", values: ["~", "f1", "f2", null] },
	{ tag: "img", key: "width", values: ["~", "100%", "10", 20, null] },
	{ tag: "div", key: "draggable", values: ["~", "false", "true", true, false, null] },
	{ tag: "x-data", key: "data", values: ["~", "@o1", "@o2", null] },
	{ tag: "x-data", key: "mode", values: ["~", "m1", "m2", null] },
];

/** props whose meaning is only compared with a first render */
const more = (tag, key, ...values) => ({ tag, key, values: ["~", ...values] });
export const MORE_PROPS = [
	more("div", "dir", "ltr", "rtl", null),
	more("div", "accessKey", "a", "b", null),
	more("div", "contentEditable", "true", "false", true, false, null),
	more("div", "inert", true, false, null),
	more("div", "slot", "a", "b", null),
	more("div", "part", "a", "b c", null),
	more("div", "nonce", "a", "b", null),
	more("div", "popover", "auto", "manual", null),
	more("div", "ariaLabel", "a", "b", null),
	more("div", "aria-hidden", "true", true, "false", false, null),
	more("div", "itemProp", "a", "b", null),
	more("div", "data", "a", 1, null),
	more("div", "custom", "a", 1, true, null),
	more("div", "ID", "a", "b", null),
	more("a", "target", "_blank", "x", null),
	more("a", "rel", "a", "b c", null),
	more("a", "download", "a", "", true, null),
	more("img", "src", "/a.png", "/b.png", "", null),
	more("img", "srcSet", "/a.png 1x", "", null),
	more("img", "srcset", "/a.png 1x", "", null),
	more("img", "crossOrigin", "anonymous", "use-credentials", null),
	more("img", "loading", "lazy", "eager", null),
	more("img", "height", "50%", "10", 20, 0, null),
	more("video", "autoplay", true, false, null),
	more("video", "controls", true, false, null),
	more("video", "loop", true, false, null),
	more("video", "poster", "/a", "/b", null),
	more("form", "noValidate", true, false, null),
	more("form", "novalidate", true, false, null),
	more("form", "method", "post", "get", null),
	more("form", "action", "/a", "/b", null),
	more("form", "acceptCharset", "utf-8", "x", null),
	more("form", "accept-charset", "utf-8", "x", null),
	more("form", "autocomplete", "on", "off", null),
	more("input", "required", true, false, null),
	more("input", "multiple", true, false, null),
	more("input", "autocomplete", "on", "off", null),
	more("input", "autoFocus", true, false, null),
	more("input", "autofocus", true, false, null),
	more("input", "min", "1", 2, null),
	more("input", "max", "1", 2, null),
	more("input", "step", "1", 2, "any", null),
	more("input", "pattern", "a", "b", null),
	more("input", "size", 5, 6, "7", null),
	more("input", "minLength", 1, 2, null),
	more("input", "maxlength", 3, 5, null),
	more("input", "inputMode", "numeric", "text", null),
	more("input", "accept", "a", "b", null),
	more("input", "formAction", "/a", "/b", null),
	more("input", "width", 5, 6, null),
	more("input", "data-value", "a", 0, null),
	{ tag: "input", key: "type", fixed: { value: "a" }, values: ["~", "text", "password", "search", null] },
	more("textarea", "rows", 2, 3, null),
	more("textarea", "cols", 2, 3, null),
	more("textarea", "placeholder", "a", "b", null),
	more("textarea", "wrap", "hard", "soft", null),
	more("button", "name", "a", "b", null),
	more("button", "value", "a", "b", null),
	more("button", "autofocus", true, false, null),
	more("button", "formNoValidate", true, false, null),
	more("option", "disabled", true, false, null),
	more("option", "label", "a", "b", null),
	more("option", "value", "a", "b", "", null),
	more("optgroup", "label", "a", "b", null),
	more("li", "value", 1, 2, null),
	more("ol", "start", 1, 2, null),
	more("ol", "reversed", true, false, null),
	more("td", "rowSpan", 2, 3, null),
	more("td", "headers", "a", "b", null),
	more("th", "scope", "row", "col", null),
	more("th", "abbr", "a", "b", null),
	more("meter", "value", 0.25, 0.5, null),
	more("progress", "max", 2, 3, null),
	more("dialog", "open", true, false, null),
	more("fieldset", "disabled", true, false, null),
	more("fieldset", "form", "a", "b", null),
	more("output", "htmlFor", "a", "b", null),
	more("iframe", "title", "a", "b", null),
	more("iframe", "sandbox", "allow-forms", "", null),
	more("iframe", "allowFullscreen", true, false, null),
	more("time", "dateTime", "1", "2", null),
	more("q", "cite", "/a", "/b", null),
	more("meta", "httpEquiv", "a", "b", null),
	more("slot", "name", "a", "b", null),
	more("x-other", "value", "a", 1, null),
	more("x-other", "foo", "a", true, null),
	...["fillOpacity", "xlink:href", "href", "d", "x", "dataFoo", "data-foo", "ariaLabel", "aria-label", "role", "lang", "title", "stroke_width", "textAnchor", "style"].map((k) => ({ tag: "path", svg: true, key: k, values: k === "style" ? ["~", { fill: "red" }, "fill: red", null] : ["~", "1", 2, true, false, null] })),
];

export function withProp(group, value, extra = {}, ...kids) {
	const props = { ...(group.fixed ?? {}), ...extra };
	if (value !== "~") props[group.key] = value;
	const children = kids.length ? kids : ["input", "img", "textarea", "meta", "iframe", "option"].includes(group.tag) ? [] : ["t"];
	const view = [group.tag, props, ...children];
	return group.svg ? ["svg", {}, view] : view;
}

/** defines <x-data> (an ordinary custom element with an object-valued property) once per realm */
export function defineXData(realm) {
	if (realm.window.customElements.get("x-data")) return;
	realm.window.customElements.define(
		"x-data",
		class extends realm.window.HTMLElement {
			#data;
			get data() {
				return this.#data;
			}
			set data(v) {
				this.#data = v ?? undefined;
			}
		},
	);
}

export const OBJECTS = { o1: { n: 1 }, o2: { n: 2 } };

export const PLAIN = ["a", "b", null, ["p", {}], ["q", {}]];
export const DECORATED = [
	"a",
	null,
	["p", {}],
	["p", { class: "x", title: "t" }, "a"],
	["p", { style: { color: "red" } }, ["q", {}]],
	["input", { value: "a" }],
	["input", { value: "b", disabled: true }],
	["svg", { viewBox: "0 0 1 1" }, ["g", { strokeWidth: 1 }]],
	["p", { id: "i" }, "a", "b"],
	["q", { hidden: true, "data-x": 1 }],
];

const li = (t, p = {}) => ["li", p, t];
export const RICH = [
	null,
	"only text",
	{ a: [] },
	["div", {}],
	["div", {}, "hello"],
	["div", { class: "a" }, "hello ", 3],
	["div", { class: "b", id: "z" }, ["span", {}, "1"], null, "tail"],
	["div", { class: "b" }, ["span", {}, "1"], ["em", {}, "shown"], "tail"],
	["ul", {}, li("one")],
	["ul", {}, li("one"), li("two")],
	["ul", {}, li("two"), li("one")],
	["ul", {}, li("one"), li("two"), li("three")],
	["ul", {}, li("three"), li("one"), li("two")],
	["ul", {}, li("one", { class: "sel" }), li("two")],
	["ul", {}, { a: [li("one"), li("two")] }, { f: [li("x")] }],
	["ul", {}, { a: [] }, li("end")],
	["form", {}, ["label", { htmlFor: "u" }, "User"], ["input", { id: "u", value: "ann" }], ["button", { disabled: true }, "Go"]],
	["form", {}, ["label", { htmlFor: "v" }, "User"], ["input", { id: "u", value: "bob" }], ["button", {}, "Go"]],
	["form", {}, ["input", { type: "checkbox", checked: true }], ["textarea", { value: "txt" }]],
	["form", {}, ["input", { type: "checkbox", checked: false }], ["textarea", { value: "more" }]],
	["select", { value: "b" }, ["option", { value: "a" }, "A"], ["option", { value: "b" }, "B"]],
	["select", { value: "a" }, ["option", { value: "a" }, "A"], ["option", { value: "b" }, "B"]],
	["select", { value: "c" }, ["option", { value: "a" }, "A"], ["option", { value: "b" }, "B"], ["option", { value: "c" }, "C"]],
	["select", { value: "b" }, ["option", { value: "b" }, "B"], ["option", { value: "c" }, "C"]],
	["svg", { viewBox: "0 0 10 10", class: "ic" }, ["circle", { cx: 1, cy: 1, r: 2, strokeWidth: 2 }], ["text", {}, "t"]],
	["svg", { viewBox: "0 0 20 20" }, ["g", { fill: "red" }, ["circle", { r: 1 }]]],
	["svg", {}, ["foreignObject", { width: 10 }, ["div", { class: "in" }, "html"]]],
	["svg", {}, ["foreignObject", { width: 20 }, ["div", { class: "out" }, ["p", {}, "html"]]]],
	["svg", {}, ["a", { href: "#" }, "link"], ["title", {}, "T"]],
	["div", {}, ["a", { href: "#" }, "link"]],
	{ f: [["p", {}, "1"], ["p", {}, "2"]] },
	{ f: [["p", {}, "2"], ["p", {}, "1"]] },
	{ a: [["p", {}, "1"], "x", null] },
	{ c: [["p", { class: "comp" }, "c"]] },
	{ w: ["inner"] },
	{ w: [["i", {}, "inner"], "tail"] },
	["table", {}, ["tbody", {}, ["tr", {}, ["td", { colSpan: 2 }, "c"]]]],
	["table", {}, ["tbody", {}, ["tr", {}, ["td", {}, "c"], ["td", {}, "d"]], ["tr", {}, ["td", {}, "e"]]]],
	["div", { style: { color: "red", opacity: "0.5" }, "aria-label": "x" }, ["p", { style: "color: blue" }]],
	["div", { style: { color: null, opacity: "0.2" } }, ["p", { style: { color: "blue" } }]],
	["div", {}, ["slot", { name: "s" }], { u: 1 }],
	["div", {}, ["slot", { name: "s2" }], "known"],
	["x-data", { data: "@o1", mode: "m1" }, "slotted"],
	["x-data", { data: "@o2" }, "slotted"],
	["DIV", { class: "upper" }, "x"],
	["details", { open: true }, ["summary", {}, "s"], "body"],
	["div", {}, true, false, "$undef", 0],
];

/** lists and trees far larger than those of the exhaustive families: n items of a kind, and n levels */
export const SIZES = [0, 1, 5, 8, 9, 12, 16, 17, 24, 32, 33, 50, 64, 65, 100, 128, 129, 200];
const ITEMS = {
	text: (i) => `t${i}`,
	li: (i) => ["li", { class: `c${i}` }, `item ${i}`],
	mixed: (i) => (i % 3 === 0 ? `t${i}` : i % 3 === 1 ? ["li", { id: `i${i}` }, i] : null),
	same: () => ["li", {}, "x"],
	svg: (i) => ["circle", { r: i, strokeWidth: i }],
};
export const big = (kind, n, from = 0) => [kind === "svg" ? "svg" : "ul", {}, ...Array.from({ length: n }, (_, i) => ITEMS[kind](i + from))];
const tower = (n, leaf) => {
	let v = leaf;
	for (let i = 0; i < n; i++) v = i % 7 === 6 ? { f: [["p", {}, v]] } : ["div", { class: `l${i}` }, v];
	return v;
};
const wide = (n, from) => ["div", Object.fromEntries(Array.from({ length: n }, (_, i) => [`data-k${i}`, i + from])), "w"];
const styled = (n, from) => ["div", { style: Object.fromEntries(Array.from({ length: n }, (_, i) => [`--k${i}`, `${i + from}`])) }, "s"];
export function* bigPairs() {
	for (const kind of Object.keys(ITEMS)) for (const a of SIZES) for (const b of SIZES) {
		yield [big(kind, a), big(kind, b)];
		if (kind !== "same") yield [big(kind, a), big(kind, b, 1)];
	}
	for (const a of SIZES.slice(1, 12)) {
		for (const b of SIZES.slice(1, 12)) {
			yield [tower(a, "x"), tower(b, "y")];
			yield [tower(a, ["p", {}, "x"]), tower(a, ["p", {}, "x", ...Array(b).fill(["i", {}])])];
			for (const make of [wide, styled]) yield [make(a, 0), make(b, 0)], yield [make(a, 0), make(b, 1)];
		}
	}
	const text = (n) => "abcdefghi\n".repeat(n);
	for (const a of SIZES) for (const b of SIZES) yield [["p", {}, text(a)], ["p", {}, `${text(b)}.`]];
}
