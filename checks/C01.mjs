// Rendering any sequence of views ends in the DOM a first render of the last view gives.
import { sequences, upTo } from "../lib/enum.mjs";
import { bigPairs, DECORATED, defineXData, MORE_PROPS, OBJECTS, PLAIN, PROP_GROUPS, RICH, withProp } from "../lib/alphabet.mjs";
import { makeBuilder, snap, ViewHost, viewTag } from "../lib/views.mjs";

const CONTEXTS = {
	root: (kids) => ({ a: kids }),
	nested: (kids) => ["div", {}, ...kids],
	deep: (kids) => ["section", {}, "pre", ["ul", { class: "k" }, ...kids], ["p", {}, "post"]],
	svg: (kids) => ["svg", {}, ["g", {}, ...kids]],
};

function* lists(leaves, n) {
	yield* upTo(leaves, n);
}

/** yields sequences of views (JSON) */
export function* viewSequences(tier) {
	const thorough = tier === "thorough";
	// S: structure, pairs, in every context
	const S = [...lists(PLAIN, 3)];
	for (const ctx of Object.keys(CONTEXTS)) {
		for (const a of S) for (const b of S) yield { fam: `S:${ctx}`, views: [CONTEXTS[ctx](a), CONTEXTS[ctx](b)] };
	}
	// S3: structure, longer sequences, short lists
	const S2 = [...lists(PLAIN, thorough ? 2 : 2)].filter((l) => thorough || l.length < 2 || l[0] !== l[1]);
	for (const ctx of thorough ? ["root", "nested", "deep"] : ["root", "nested"]) {
		for (const q of sequences(S2, 3)) yield { fam: `S3:${ctx}`, views: q.map(CONTEXTS[ctx]) };
	}
	if (thorough) {
		const S1 = [...lists(PLAIN, 1), ["a", "b"], ["b", "a"], [["p", {}], "a"], ["a", ["p", {}]]];
		for (const q of sequences(S1, 4)) yield { fam: "S4", views: q.map(CONTEXTS.nested) };
		// two-level trees
		const T = [];
		for (const l of lists(PLAIN, 2)) T.push(["p", {}, ...l]);
		const T2 = [...lists([...T, "a"], 1), ...[...sequences(T.slice(0, 16), 2)]];
		for (const a of T2) for (const b of T2) yield { fam: "S2L", views: [CONTEXTS.nested(a), CONTEXTS.nested(b)] };
	}
	// P: one prop, every value sequence
	for (const g of PROP_GROUPS) {
		for (const q of sequences(g.values, 3)) yield { fam: "P", views: q.map((v) => withProp(g, v)) };
		if (thorough && g.values.length <= 8) for (const q of sequences(g.values, 4)) yield { fam: "P4", views: q.map((v) => withProp(g, v)) };
	}
	// PP: two props at a time
	for (const g1 of PROP_GROUPS) {
		for (const g2 of PROP_GROUPS) {
			if (g1 === g2 || g1.tag !== g2.tag || g1.key >= g2.key) continue;
			if (g1.key === "type" || g2.key === "type") continue;
			if ((g1.key === "class" && g2.key === "className") || (g1.key === "for" && g2.key === "htmlFor") || (g1.key === "tabIndex" && g2.key === "tabindex") || g1.fixed || g2.fixed) continue;
			const v1 = g1.values.slice(0, thorough ? 5 : 3);
			const v2 = g2.values.slice(0, thorough ? 5 : 3);
			const combos = [];
			for (const a of v1) for (const b of v2) combos.push(withProp(g2, b, a === "~" ? {} : { [g1.key]: a }));
			for (const q of sequences(combos, 2)) yield { fam: "PP", views: q };
		}
	}
	// D: decorated nodes in lists
	const D = [...lists(thorough ? DECORATED : DECORATED.slice(0, 7), 3)].filter((l) => thorough || l.length < 3 || new Set(l).size > 1);
	for (const a of D) for (const b of D) {
		if (!thorough && a.length === 3 && b.length === 3 && a[0] !== b[0] && a[1] !== b[1] && a[2] !== b[2]) continue;
		yield { fam: "D", views: [CONTEXTS.nested(a), CONTEXTS.nested(b)] };
	}
	// R: realistic views, triples; the same view objects come back
	const R = thorough ? RICH : RICH.filter((_, i) => i % 3 !== 2 || i > 36);
	for (const q of sequences(RICH, 2)) yield { fam: "R2", views: q };
	for (const q of sequences(R, 3)) yield { fam: "R3", views: q, reuse: true };
	// T: texts, including empty ones and those that look empty
	const texts = ["", "a", " ", 0, "0", "\n", "\u00a0", "<b>", -0.5, null, ["p", {}]];
	for (const q of sequences(texts, 3)) yield { fam: "T", views: q.map((x) => ["div", {}, x]) };
	const T2 = [...lists(texts, 2)];
	for (const a of T2) for (const b of T2) yield { fam: "T2", views: [CONTEXTS.nested(a), CONTEXTS.nested(b)] };
	// AL: one thing under two names
	for (const [tag, k1, k2, both] of [["div", "class", "className", true], ["svg", "class", "className", true], ["label", "for", "htmlFor", false], ["svg", "tabindex", "tabIndex", false], ["div", "tabindex", "tabIndex", false], ["input", "readonly", "readOnly", false], ["svg", "stroke-width", "strokeWidth", false], ["div", "data-a-b", "dataAB", false]]) {
		const vals = tag === "div" && k1 === "tabindex" ? [0, 1] : k1 === "readonly" ? [true] : k1.includes("tab") ? ["0", "1"] : ["x", "y"];
		const ps = [{}];
		for (const v of vals) ps.push({ [k1]: v }, { [k2]: v });
		if (both) for (const v of vals) for (const w of vals) ps.push({ [k1]: v, [k2]: w }, { [k2]: v, [k1]: w });
		for (const q of sequences(ps, 3)) yield { fam: "AL", views: q.map((x) => [tag, x]) };
	}
	// ST: style objects whose properties overlap (shorthands), also with values that CSS rejects
	const pick = [{}, { margin: "1px" }, { margin: "2px" }, { margin: null }, { margin: "bogus" }];
	const side = [{}, { marginTop: "1px" }, { marginTop: "2px" }, { marginTop: null }];
	const styles = [];
	for (const a of pick) for (const b of side) {
		styles.push({ ...a, ...b });
		if (Object.keys(a).length && Object.keys(b).length) styles.push({ ...b, ...a });
	}
	styles.push("~", "margin: 1px", "margin-top: 2px", null, { padding: "1px", margin: "1px" }, { paddingTop: "2px", padding: null, color: "red" });
	for (const q of sequences(styles, thorough ? 3 : 2)) yield { fam: "ST", views: q.map((x) => ["p", x === "~" ? {} : { style: x }]) };
	// PM: many more props, every value sequence
	for (const g of MORE_PROPS) for (const q of sequences(g.values, 3)) yield { fam: "PM", views: q.map((v) => withProp(g, v)) };
	// IH: content given by a prop, or by children
	const contents = [["div", {}], ["div", {}, "t"], ["div", {}, ["p", {}], "t"]];
	for (const k of ["innerHTML", "textContent"]) for (const v of ["<b>x</b>", "y", "", null]) contents.push(["div", { [k]: v }]);
	for (const q of sequences(contents, 3)) {
		yield { fam: "IH", views: q };
		yield { fam: "IH", views: q.map(([, p, ...k]) => ["svg", {}, ["g", p, ...k]]) };
	}
	// RAD: radio groups
	const radios = [];
	for (const v of ["~", "a", "b", "c"]) for (const ids of [["a", "b"], ["a", "b", "c"], ["b", "a"]]) radios.push(["form", {}, ...ids.map((x) => ["input", { type: "radio", name: "g", value: x, ...(v === "~" ? {} : { checked: v === x }) }])]);
	for (const q of sequences(radios, 3)) yield { fam: "RAD", views: q };
	// BIG: sizes far beyond the families above
	for (const q of bigPairs()) yield { fam: "BIG", views: q };
	// SEL: select/option combinations
	const opts = [["a"], ["a", "b"], ["b", "a"], ["b", "c"], ["a", "b", "c"], []];
	const selects = [];
	for (const o of opts) for (const v of ["~", "a", "b", "c", null]) {
		const p = v === "~" ? {} : { value: v };
		selects.push(["select", p, ...o.map((x) => ["option", { value: x }, x.toUpperCase()])]);
	}
	for (const q of sequences(selects, 2)) if (q[1][1].value !== undefined && q[1][1].value !== null) yield { fam: "SEL", views: q };
}

export default {
	id: "C01",
	bounds: (tier) =>
		`every sequence in these families (tier ${tier}): S all pairs of child lists of length<=3 over ${PLAIN.length} leaf kinds in 4 contexts; S3 triples of lists<=2; P all value triples (thorough: 4-sequences) of ${PROP_GROUPS.length} props; PP pairs of two-prop assignments; D pairs of decorated lists<=3; T texts incl. empty; AL props with two names; ST styles whose properties overlap; PM ${MORE_PROPS.length} more props; IH content given by innerHTML or textContent or by children; RAD radio groups; BIG pairs of lists of up to 200 items, 50 levels, 50 props; R2/R3 all pairs/triples of ${RICH.length}/~${RICH.length - 16} realistic views; SEL select/option pairs`,
	assumptions: [
		"DOM semantics are jsdom's; the reference is a first render by the same renderer (whose meaning C02 fixes independently)",
		"empty style attributes and comment text are not compared; range/number inputs with interdependent min/max/value and <select> without a value prop are outside the alphabet",
	],
	*cases(tier) {
		yield* viewSequences(tier);
	},
	exec(ctx, t) {
		const realm = ctx.realm(1500);
		if (realm !== this.lastRealm) {
			this.lastRealm = realm;
			this.build = makeBuilder(realm.api, { objects: OBJECTS, handlers: {} });
			this.fresh = this.fresh ?? new Map();
			defineXData(realm);
			viewTag(realm);
		}
		const build = this.build;
		const idOf = (v) => (v === OBJECTS.o1 ? "o1" : v === OBJECTS.o2 ? "o2" : String(v));
		const take = (h) => snap(h.root, { props: ["data"], idOf });
		const freshOf = (view) => {
			const key = JSON.stringify(view);
			let s = this.fresh.get(key);
			if (s === undefined) {
				const h = new ViewHost(realm, { first: build(view) });
				s = take(h);
				h.close();
				if (this.fresh.size > 20000) this.fresh.clear();
				this.fresh.set(key, s);
			}
			return s;
		};
		const memo = new Map();
		const buildOnce = (view) => {
			if (!t.reuse) return build(view);
			const key = JSON.stringify(view);
			if (!memo.has(key)) memo.set(key, build(view));
			return memo.get(key);
		};
		realm.takeErrors();
		const host = new ViewHost(realm, { first: buildOnce(t.views[0]) });
		for (let i = 0; i < t.views.length; i++) {
			if (i > 0) host.render(buildOnce(t.views[i]));
			ctx.step();
			const got = take(host);
			const want = freshOf(t.views[i]);
			ctx.state(got);
			const errors = realm.takeErrors();
			if (errors.length || got !== want) {
				ctx.fail(
					errors.length ? `rendering threw: ${errors[0]?.stack ?? errors[0]}` : `after ${i + 1} renders the content differs from a first render of the same view\n got  ${got}\n want ${want}`,
					{ trace: { ...t, views: t.views.slice(0, i + 1) } },
				);
				break;
			}
		}
		host.close();
	},
};
