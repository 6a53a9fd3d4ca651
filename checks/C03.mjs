// Which live nodes, typed text and toggles survive a re-render.
import { sequences, upTo } from "../lib/enum.mjs";
import { bigPairs, DECORATED, defineXData, OBJECTS, PLAIN, PROP_GROUPS, RICH, withProp } from "../lib/alphabet.mjs";
import { makeBuilder, snap, ViewHost, viewTag } from "../lib/views.mjs";

const SVG = "svg";

/** the view as nested [kind, children] lists, flattened the way a reader of the view would */
function shape(view, ns, lone) {
	const drop = (kids) => (lone && kids.length === 1 && (kids[0] === null || kids[0] === "$undef") ? [] : kids);
	if (view === null || view === "$undef" || typeof view === "boolean") return [{ k: "comment" }];
	if (typeof view !== "object") return [{ k: "text", text: String(view) }];
	if (Array.isArray(view)) {
		const [tag, , ...kids] = view;
		const svg = tag === "svg" || ns === SVG;
		const inner = svg && tag !== "foreignObject" ? SVG : undefined;
		return [{ k: `${svg ? "svg:" : ""}${tag}`, kids: tag === "slot" ? [] : drop(kids).flatMap((x) => shape(x, inner, lone)) }];
	}
	if (view.u) return [{ k: "comment" }];
	if (view.w) return shape(["b", {}, ...view.w], ns, lone);
	const kids = view.a ?? drop(view.f ?? view.c);
	return kids.flatMap((x) => shape(x, ns, lone));
}
const content = (n) => (n.k === "text" ? `t${JSON.stringify(n.text)}` : `${n.k}[${(n.kids ?? []).map(content).join()}]`);

/** paths of nodes that have to be the same node afterwards */
function kept(a, b, path = [], out = []) {
	if (b.length < a.length) return out;
	for (let i = 0; i < a.length; i++) if (a[i].k !== b[i].k) return out;
	if (a.length === b.length && a.length > 1) {
		const x = a.map(content), y = b.map(content);
		if (x.join("\n") !== y.join("\n") && [...x].sort().join("\n") === [...y].sort().join("\n")) return out;
	}
	for (let i = 0; i < a.length; i++) {
		out.push([...path, i]);
		if (a[i].kids) kept(a[i].kids, b[i].kids, [...path, i], out);
	}
	return out;
}

const CONTEXTS = {
	root: (kids) => ({ a: kids }),
	nested: (kids) => ["div", {}, ...kids],
	deep: (kids) => ["section", {}, "pre", ["ul", { class: "k" }, ...kids], ["p", {}, "post"]],
	svg: (kids) => ["svg", {}, ["g", {}, ...kids]],
	twice: (kids) => ["main", {}, ["ul", {}, ...kids], ["input", { value: "x" }], ["ul", {}, ["li", {}, "z"]]],
};

// ---- identity ---------------------------------------------------------------
function* identityCases(tier) {
	const thorough = tier === "thorough";
	const S = [...upTo(PLAIN, 3)];
	for (const c of Object.keys(CONTEXTS)) for (const a of S) for (const b of S) yield { fam: "I", views: [CONTEXTS[c](a), CONTEXTS[c](b)] };
	const L2 = [...upTo([["p", { class: "1" }], ["p", { class: "2" }, "a"], "a", "b", ["button", { onClick: "$h1" }, "a"], ["button", { onClick: "$h2", disabled: true }, "b"], ["input", { value: "1" }]], 2)];
	for (const c of ["nested", "twice"]) for (const q of sequences(L2, thorough ? 3 : 2)) yield { fam: "I2", views: q.map(CONTEXTS[c]) };
	const D = [...upTo(thorough ? DECORATED : DECORATED.slice(0, 8), thorough ? 3 : 2)];
	for (const a of D) for (const b of D) yield { fam: "D", views: [CONTEXTS.nested(a), CONTEXTS.nested(b)] };
	for (const q of sequences(RICH, 2)) yield { fam: "R2", views: q };
	if (thorough) for (const q of sequences(RICH, 3)) yield { fam: "R3", views: q };
	for (const q of bigPairs()) yield { fam: "BIG", views: q };
	// two independent lists, each changing
	const inner = [...upTo(["a", "b", ["p", {}]], 2)];
	for (const q of sequences(inner, 4)) yield { fam: "2L", views: [["div", {}, ["ul", {}, ...q[0]], ["ol", {}, ...q[1]]], ["div", {}, ["ul", {}, ...q[2]], ["ol", {}, ...q[3]]]] };
	// attributes of the only child, its siblings and its parent
	for (const g of PROP_GROUPS) for (const [a, b] of sequences(g.values, 2)) yield { fam: "P", views: [["div", {}, withProp(g, a), "s"], ["div", {}, withProp(g, b), "t", ["p", {}]]] };
	for (const g of PROP_GROUPS) {
		if (g.fixed || g.svg || ["input", "textarea", "img", "progress", "select"].includes(g.tag)) continue;
		for (const [a, b] of sequences(g.values, 2)) yield { fam: "PC", views: [withProp(g, a, {}, ["input", { value: "v" }], "s"), withProp(g, b, {}, ["input", { value: "v" }], "t")] };
	}
}

// ---- edits --------------------------------------------------------------------
const VALUES = ["~", "a", "b", "", null, "$undef"];
const TEXT_KINDS = { text: ["input", {}], textarea: ["textarea", {}], password: ["input", { type: "password" }], search: ["input", { type: "search" }], number: ["input", { type: "number" }] };
const WORDS = { number: { a: "1", b: "2", x: "7" } };
const CHECK_KINDS = { checkbox: ["input", { type: "checkbox" }], radio: ["input", { type: "radio", name: "g" }] };
const PLACES = {
	root: (c) => c,
	form: (c, n) => ["form", {}, ["label", {}, `n${n}`], c, n % 2 ? "odd" : "even"],
	deep: (c, n) => ["div", { class: `c${n}` }, ["p", {}, ["span", { title: `${n}` }, c]], ...(n > 1 ? ["more"] : [])],
};
function* editCases(tier) {
	const thorough = tier === "thorough";
	const depth = thorough ? 6 : 5;
	for (const kind of Object.keys(TEXT_KINDS)) {
		const ops = [...(thorough ? VALUES.slice(0, 5) : ["~", "a", "b", null]).map((v) => ["r", v]), ["t", "x"], ["t", "a"], ["c", "start"], ["c", "end"]];
		for (const place of Object.keys(PLACES)) {
			const d = kind === "text" ? (place === "form" ? depth : depth - 1) : kind === "search" || kind === "number" ? 3 : 4;
			for (const first of ["~", "a"]) for (const q of sequences(ops, d - 1)) if (q.at(-1)[0] === "r") yield { fam: "E", kind, place, first, ops: q };
		}
	}
	// choices in a select: kept until the state's own value changes
	const ops = [...["a", "b", "c"].map((v) => ["r", v]), ...["a", "b"].map((v) => ["p", v])];
	for (const place of Object.keys(PLACES)) {
		for (const first of ["a", "b"]) for (const q of sequences(ops, depth - 1)) if (q.at(-1)[0] === "r") yield { fam: "SEL", place, first, ops: q };
		for (const q of sequences([["r", "~"], ["p", "a"], ["p", "c"]], depth - 1)) yield { fam: "SEL", place, first: "~", ops: q };
	}
	for (const kind of Object.keys(CHECK_KINDS)) {
		const ops = [...["~", true, false, null].map((v) => ["r", v]), ["k"]];
		for (const place of Object.keys(PLACES)) for (const first of ["~", true, false]) for (const q of sequences(ops, depth)) if (q.at(-1)[0] === "r") yield { fam: "K", kind, place, first, ops: q };
	}
}

export default {
	id: "C03",
	bounds: (tier) => `identity: all pairs of child lists of length <= 3 over ${PLAIN.length} leaves in ${Object.keys(CONTEXTS).length} contexts, lists of decorated nodes, all pairs (thorough: triples) of ${RICH.length} realistic views, all pairs of two independent lists of length <= 2, all value pairs of ${PROP_GROUPS.length} props, pairs of lists of up to 200 items and trees of up to 50 levels; edits: all sequences of renders (4-5 values), typing, composition start/end and toggles up to length ${tier === "thorough" ? 6 : 5} on ${Object.keys(TEXT_KINDS).length + Object.keys(CHECK_KINDS).length} control kinds in 3 places, and choices in a select`,
	assumptions: ["DOM semantics are jsdom's", "a child list whose items merely changed places may be rebuilt (this is how the renderer reacts to reordering)", "a composition is what compositionstart and compositionend events say"],
	*cases(tier) {
		yield* editCases(tier);
		yield* identityCases(tier);
	},
	exec(ctx, t) {
		const realm = ctx.realm(1500);
		if (realm !== this.lastRealm) {
			this.lastRealm = realm;
			this.build = makeBuilder(realm.api, { objects: OBJECTS, handlers: { h1() {}, h2() {} } });
			defineXData(realm);
			viewTag(realm);
		}
		realm.takeErrors();
		if (t.fam === "SEL") choose(ctx, realm, this.build, t);
		else if (t.ops) edit(ctx, realm, this.build, t);
		else identity(ctx, realm, this.build, t);
		const errors = realm.takeErrors();
		if (errors.length) ctx.fail(`rendering threw: ${errors[0]?.stack ?? errors[0]}`);
	},
};

function at(root, path) {
	let n = root;
	for (const i of path) n = n?.childNodes[i];
	return n;
}

function identity(ctx, realm, build, t) {
	const host = new ViewHost(realm, { first: build(t.views[0]) });
	const root = host.root.querySelector("[data-ignite-jsx-root]");
	for (let i = 1; i < t.views.length; i++) {
		const paths = kept(shape(t.views[i - 1], undefined, true), shape(t.views[i], undefined, true));
		const before = paths.map((p) => at(root, p));
		if (before.some((n) => !n)) {
			ctx.fail(`the content does not have the described structure: ${snap(root)}`);
			break;
		}
		let focused = null;
		for (const n of before) if (n.nodeType === 1 && /^(input|button|textarea|select)$/.test(n.localName) && n.namespaceURI.endsWith("xhtml") && !n.disabled) focused = n;
		focused?.focus();
		const top = host.root.querySelector("[data-ignite-jsx-root]");
		host.render(build(t.views[i]));
		ctx.step();
		ctx.state(snap(root));
		if (host.root.querySelector("[data-ignite-jsx-root]") !== top) {
			ctx.fail("the content root was replaced");
			break;
		}
		const lost = paths.find((p, k) => at(root, p) !== before[k]);
		if (lost) {
			ctx.fail(`the node at [${lost}] was replaced although the views require it to be kept\n before ${JSON.stringify(t.views[i - 1])}\n after  ${JSON.stringify(t.views[i])}`, { trace: { ...t, views: t.views.slice(0, i + 1) } });
			break;
		}
		if (focused && !focused.disabled && host.root.activeElement !== focused) {
			ctx.fail("a kept control lost focus", { trace: { ...t, views: t.views.slice(0, i + 1) } });
			break;
		}
		ctx.count("nodes_kept", paths.length);
	}
	host.close();
}

const absent = (v) => v === "~" || v === null || v === false || v === "$undef";

function edit(ctx, realm, build, t) {
	const check = t.kind in CHECK_KINDS;
	const [tag, base] = check ? CHECK_KINDS[t.kind] : TEXT_KINDS[t.kind];
	const key = check ? "checked" : "value";
	let n = 0;
	const word = (v) => WORDS[t.kind]?.[v] ?? v;
	t = { ...t, first: word(t.first), ops: t.ops.map(([op, v]) => [op, word(v)]) };
	const view = (v) => {
		const props = { ...base, class: `k${n % 2}`, placeholder: `p${n}` };
		if (v !== "~") props[key] = v;
		return build(PLACES[t.place]([tag, props], n++));
	};
	const host = new ViewHost(realm, { first: view(t.first) });
	const el = host.root.querySelector(tag);
	el.focus();
	let prev = t.first;
	let shown = absent(t.first) ? (check ? false : "") : t.first;
	let composing = false;
	const verify = (i) => {
		if (host.root.querySelector(tag) !== el) ctx.fail("the control was replaced", { trace: { ...t, ops: t.ops.slice(0, i + 1) } });
		else if (el[key] !== shown) ctx.fail(`the control shows ${JSON.stringify(el[key])} instead of ${JSON.stringify(shown)}`, { trace: { ...t, ops: t.ops.slice(0, i + 1) } });
		else if (host.root.activeElement !== el) ctx.fail("the control lost focus", { trace: { ...t, ops: t.ops.slice(0, i + 1) } });
		else return true;
		return false;
	};
	if (verify(-1))
		for (let i = 0; i < t.ops.length; i++) {
			const [op, arg] = t.ops[i];
			if (op === "r") {
				host.render(view(arg));
				const changed = absent(arg) ? !absent(prev) : absent(prev) || arg !== prev;
				if (changed && !composing) shown = absent(arg) ? (check ? false : "") : arg;
				prev = arg;
			} else if (op === "t") {
				el.value = shown = arg;
				el.dispatchEvent(new realm.window.Event("input", { bubbles: true, composed: true }));
			} else if (op === "k") {
				el.checked = shown = !shown;
				el.dispatchEvent(new realm.window.Event("change", { bubbles: true }));
			} else {
				composing = arg === "start";
				el.dispatchEvent(new realm.window.CompositionEvent(`composition${arg}`, { bubbles: true, composed: true, data: "x" }));
			}
			ctx.step();
			ctx.state(`${t.kind}|${prev}|${shown}|${composing}`);
			if (!verify(i)) break;
		}
	host.close();
}

function choose(ctx, realm, build, t) {
	let n = 0;
	const view = (v) => build(PLACES[t.place](["select", { ...(v === "~" ? {} : { value: v }), class: `k${n % 2}` }, ...["a", "b", "c"].map((x) => ["option", { value: x, title: `${n}` }, x])], n++));
	const host = new ViewHost(realm, { first: view(t.first) });
	const el = host.root.querySelector("select");
	let prev = t.first;
	let shown = prev === "~" ? "a" : prev;
	for (let i = 0; i < t.ops.length; i++) {
		const [op, arg] = t.ops[i];
		if (op === "p") {
			el.value = shown = arg;
			el.dispatchEvent(new realm.window.Event("change", { bubbles: true }));
		} else {
			host.render(view(arg));
			if (arg !== prev) shown = arg;
			prev = arg;
		}
		ctx.step();
		ctx.state(`select|${prev}|${shown}`);
		if (host.root.querySelector("select") !== el || el.value !== shown) {
			ctx.fail(host.root.querySelector("select") !== el ? "the select was replaced" : `the select shows ${JSON.stringify(el.value)} instead of ${JSON.stringify(shown)}`, { trace: { ...t, ops: t.ops.slice(0, i + 1) } });
			break;
		}
	}
	host.close();
}
