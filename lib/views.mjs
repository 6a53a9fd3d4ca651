// JSON notation for views, and canonical DOM snapshots.
//
//   "txt" | 3 | null | true | false          primitive children
//   ["tag", {props}, ...children]            element
//   {f:[...]}  fragment   {a:[...]} array    {c:[...]} function component returning its children
//   {u:1}      an object that is not a view
// In props, "$name" stands for the handler `name`, "@o1" for the object o1.

export function makeBuilder(api, { handlers = {}, objects = {}, flavour = "jsx" } = {}) {
	const { Fragment } = api.jsx();
	const lib = flavour === "jsxDEV" ? api.jsxDevRuntime() : api.jsxRuntime();
	const make =
		flavour === "jsxDEV"
			? (t, p) => lib.jsxDEV(t, p, undefined, Array.isArray(p.children), {}, undefined)
			: flavour === "jsxs"
				? (t, p) => lib.jsxs(t, p)
				: flavour === "auto"
					? (t, p) => (Array.isArray(p.children) && p.children.length > 1 ? lib.jsxs(t, p) : lib.jsx(t, p))
					: (t, p) => lib.jsx(t, p);
	// what a compiler emits: no children key for none, the child itself for one, an array for more
	const withChildren = (props, kids) => {
		if (kids.length === 0) return props;
		return { ...props, children: kids.length === 1 && flavour !== "jsxs" ? kids[0] : kids };
	};
	const Comp = (props) => props.children;
	const CompWrap = (props) => make("b", { class: "wrap", children: props.children });
	const build = (v) => {
		if (v === null || typeof v !== "object") return v === "$undef" ? undefined : v === "$nan" ? NaN : v === "$inf" ? -Infinity : v;
		if (Array.isArray(v)) {
			const [tag, props, ...kids] = v;
			const p = {};
			for (const [k, val] of Object.entries(props ?? {})) {
				if (typeof val === "string" && val[0] === "$") {
					p[k] = val === "$undef" ? undefined : handlers[val.slice(1)];
				} else if (typeof val === "string" && val[0] === "@") p[k] = objects[val.slice(1)];
				else p[k] = val && typeof val === "object" ? Object.fromEntries(Object.entries(val).map(([a, b]) => [a, b === "$undef" ? undefined : b])) : val;
			}
			return make(tag, withChildren(p, kids.map(build)));
		}
		if (v.f) return make(Fragment, withChildren({}, v.f.map(build)));
		if (v.a) return v.a.map(build);
		if (v.c) return make(Comp, withChildren({}, v.c.map(build)));
		if (v.w) return make(CompWrap, withChildren({}, v.w.map(build)));
		if (v.u) return { anything: 1 };
		throw new Error(`bad view ${JSON.stringify(v)}`);
	};
	return build;
}

/** An adapter whose state is whatever is sent to it: drives render() through a real element. */
export function viewAdapter(initial) {
	let state = { view: initial };
	const listeners = new Set();
	return {
		scope: "isolated",
		subscribe(l) {
			listeners.add(l);
			l(state);
			return { unsubscribe: () => listeners.delete(l) };
		},
		send(e) {
			state = e;
			for (const l of [...listeners]) l(state);
		},
		getState: () => state,
		stop() {
			listeners.clear();
		},
	};
}

/** Registers (once per realm and key) an element that displays exactly the view it is given. */
export function viewTag(realm, { tag, key = "default" } = {}) {
	realm.viewTags ??= new Map();
	let name = realm.viewTags.get(key);
	if (!name) {
		name = tag ?? realm.tag("view");
		const { igniteElementFactory } = realm.api.index();
		const box = { initial: null };
		const register = igniteElementFactory(() => viewAdapter(box.initial));
		register(name, ({ state }) => state.view);
		realm.viewTags.set(key, name);
		realm.viewBoxes ??= new Map();
		realm.viewBoxes.set(name, box);
	}
	return name;
}

export class ViewHost {
	constructor(realm, { name, first, attrs = {}, connect = true, by = "parser" } = {}) {
		this.realm = realm;
		this.name = name ?? viewTag(realm);
		realm.viewBoxes.get(this.name).initial = first;
		const names = Object.keys(attrs);
		if (by === "script") {
			this.el = realm.document.createElement(this.name);
			for (const n of names) this.el.setAttribute(n, attrs[n]);
			realm.document.body.append(this.el);
		} else if (names.length) {
			// attributes must be there before the component is constructed: use the parser
			const holder = realm.document.createElement("div");
			realm.document.body.append(holder);
			holder.innerHTML = `<${this.name} ${names.map((n) => `${n}="${attrs[n]}"`).join(" ")}></${this.name}>`;
			this.el = holder.firstElementChild;
			this.holder = holder;
		} else {
			this.el = realm.document.createElement(this.name);
			if (connect) realm.document.body.append(this.el);
		}
	}
	render(view) {
		this.el.dispatchEvent(new this.realm.window.CustomEvent("send", { detail: { view } }));
	}
	get root() {
		return this.el.shadowRoot;
	}
	close() {
		this.el.remove();
		this.holder?.remove();
	}
}

export const LIVE_PROPS = {
	input: ["value", "checked", "type", "disabled", "indeterminate", "readOnly", "placeholder", "maxLength"],
	textarea: ["value", "disabled", "readOnly"],
	select: ["value", "selectedIndex", "disabled"],
	option: ["value", "selected", "text"],
	progress: ["value", "max"],
	button: ["disabled", "type"],
	label: ["htmlFor"],
	details: ["open"],
};

/** canonical, observation-only form of a DOM subtree */
export function snap(node, opts = {}) {
	const out = [];
	walk(node, out, opts);
	return out.join("");
}

function walk(node, out, opts) {
	switch (node.nodeType) {
		case 3:
			out.push(`T(${JSON.stringify(node.data)})`);
			return;
		case 8:
			out.push("C()");
			return;
		case 11:
			for (const c of node.childNodes) walk(c, out, opts);
			return;
		case 1: {
			const ns = node.namespaceURI === "http://www.w3.org/2000/svg" ? "svg:" : node.namespaceURI === "http://www.w3.org/1999/xhtml" ? "" : `{${node.namespaceURI}}`;
			out.push(`<${ns}${node.localName}`);
			const attrs = [];
			for (const a of node.attributes) {
				if (a.name === "style") {
					const css = node.style ? styleText(node.style) : a.value;
					if (css) attrs.push(`style=${css}`);
				} else attrs.push(`${a.namespaceURI ? `{${a.namespaceURI}}` : ""}${a.name}=${JSON.stringify(a.value)}`);
			}
			attrs.sort();
			for (const a of attrs) out.push(` ${a}`);
			const live = ns === "" ? LIVE_PROPS[node.localName] : undefined;
			if (live) for (const p of live) out.push(` .${p}=${String(node[p])}`);
			if (opts.props) for (const p of opts.props) if (p in node) out.push(` .${p}=${opts.idOf ? opts.idOf(node[p]) : String(node[p])}`);
			out.push(">");
			for (const c of node.childNodes) walk(c, out, opts);
			out.push("</>");
			return;
		}
		default:
			out.push(`?${node.nodeType}`);
	}
}

const SHORT = /^(margin|padding)$/;
function styleText(style) {
	const parts = [];
	// shorthands are seen through their longhands
	for (let i = 0; i < style.length; i++) if (!SHORT.test(style[i])) parts.push(`${style[i]}:${style.getPropertyValue(style[i])}${style.getPropertyPriority(style[i]) ? "!" : ""}`);
	return parts.sort().join(";");
}
