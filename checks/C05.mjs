// Rebuild modes and their reporting, over the full configuration space and view histories.
import { product, sequences } from "../lib/enum.mjs";
import { makeBuilder, snap, ViewHost, viewTag } from "../lib/views.mjs";

// "D" stands for an element whose tag is deny-listed, "L" for one that becomes so during the history
const li = (t) => ["li", {}, t];
const VIEWS = [
	["div", {}, "a", ["D", {}, "b"]],
	["div", { class: "c" }, "a2", ["D", { title: "k" }, "b"]],
	["div", {}, ["D", {}, "b"], "a"],
	{ f: ["a", ["ul", {}, li("1"), li("2")]] },
	{ f: ["a", ["ul", {}, li("2"), li("1")]] },
	{ f: ["a", ["ul", {}, li("1"), li("2"), li("3")], ["p", {}]] },
	{ a: [["D", {}], ["D", {}, ["D", {}], "x"]] },
	"text",
	["div", {}, ["ul", {}, "x"], ["ol", {}, ["i", {}]]],
	["div", {}, ["ul", {}, ["b", {}]], ["ol", {}]],
	["section", {}, ["L", {}, "q"], ["p", {}, "r"]],
	["section", {}, ["L", { class: "z" }, "q", "q2"], ["p", {}, "s"]],
	null,
];
const MAIN = [...VIEWS.keys()];
// used with a few configurations only
VIEWS.push(
	["svg", {}, ["D", {}, ["g", {}]], ["g", {}]],
	["svg", {}, ["D", { class: "k" }, ["g", {}, ["D", {}]]], ["g", {}, ["D", {}]]],
	["div", {}, ["svg", {}, ["foreignObject", {}, ["D", {}, "z"]]]],
	["div", {}, ["svg", {}, ["foreignObject", {}, ["D", {}, "y"]], ["path", {}]]],
);
const SVG = [...VIEWS.keys()].slice(MAIN.length);

function shape(view) {
	if (view === null) return [{ k: "comment" }];
	if (typeof view === "string") return [{ k: "text", text: view }];
	if (Array.isArray(view)) return [{ k: view[0], tag: view[0], kids: view.slice(2).flatMap(shape) }];
	return (view.f ?? view.a).flatMap(shape);
}
const content = (n) => (n.k === "text" ? `t${JSON.stringify(n.text)}` : `${n.k}[${(n.kids ?? []).map(content).join()}]`);
const merelyMoved = (a, b) => {
	if (a.length !== b.length || a.length < 2) return false;
	const x = a.map(content), y = b.map(content);
	return x.join("\n") !== y.join("\n") && [...x].sort().join("\n") === [...y].sort().join("\n");
};

/** what an incremental render from a to b keeps, replaces and reports */
function plan(a, b, denied, path = [], out = { keep: [], fresh: [], reasons: [] }) {
	if (b.length < a.length || a.some((n, i) => n.k !== b[i].k) || merelyMoved(a, b)) {
		out.reasons.push("child-order-change");
		for (let i = 0; i < b.length; i++) out.fresh.push([...path, i]);
		return out;
	}
	a.forEach((n, i) => {
		const here = [...path, i];
		if (n.tag && denied.has(n.tag)) {
			out.reasons.push(`denylist:${denied.get(n.tag)}`);
			out.fresh.push(here);
		} else {
			out.keep.push(here);
			if (n.kids) plan(n.kids, b[i].kids, denied, here, out);
		}
	});
	return out;
}

const STRATEGY = ["~", "diff", "replace", "other"];
const LOGGING = ["~", "off", "warn", "debug", "loud"];
const FLAG = ["~", "true", "false"];
const FLAG_MORE = ["1", "on", "TRUE"]; // anything but "false" leaves it on
const MARK = ["none", "data-ignite-nodiff", "data-ignite-hydrated", "both"];
const DENY = ["none", "host", "HOST", "inner", "host+inner"];

function* cases(tier) {
	const thorough = tier === "thorough";
	const pairs = [...sequences(MAIN, 2)];
	for (const c of product({ strategy: STRATEGY, logging: LOGGING, flag: FLAG, mark: MARK, deny: DENY })) {
		const by = c.mark === "none" ? ["parser"] : ["parser", "script"];
		for (const b of by) for (const seq of pairs) {
			// quick: every other pair of views for the scripted creation
			if (!thorough && b === "script" && (seq[0] + seq[1]) % 3) continue;
			yield { ...c, by: b, seq };
		}
	}
	const few = MAIN;
	for (const c of product({ strategy: ["~", "replace"], logging: ["warn", "debug"], flag: ["~"], mark: ["none"], deny: ["none", "inner"] })) for (const seq of sequences(few, 3)) yield { ...c, by: "parser", seq };
	for (const c of product({ strategy: ["~"], logging: ["warn"], flag: ["~", "false"], mark: ["none", "data-ignite-nodiff"], deny: ["none"] })) for (const seq of sequences(few, 3)) yield { ...c, by: "parser", seq };
	// a tag is deny-listed between two renders
	for (const c of product({ strategy: ["~"], logging: ["warn"], flag: FLAG_MORE, mark: ["none"], deny: ["none", "inner"] })) for (const seq of sequences(few, 2)) yield { ...c, by: "parser", seq };
	// SVG content
	for (const c of product({ strategy: ["~", "replace"], logging: ["~", "warn", "debug"], flag: ["~", "false"], mark: ["none", "data-ignite-nodiff"], deny: DENY })) for (const seq of sequences([...SVG, 0], 3)) yield { ...c, by: "parser", seq };
	for (const at of [1, 2, 3]) for (const seq of sequences([10, 11, 0, 7], 4)) yield { strategy: "~", logging: "warn", flag: "~", mark: "none", deny: "late", at, by: "parser", seq };
	if (thorough) for (const deny of ["none", "inner"]) for (const seq of sequences(few, 4)) yield { strategy: "~", logging: "debug", flag: "~", mark: "none", deny, by: "parser", seq };
}

export default {
	id: "C05",
	bounds: (tier) => `all ${4 * 5 * 3 * 4 * 5} combinations of strategy x logging x environment flag x host marking x deny-list, host marks given by the parser or by script, crossed with all pairs of ${MAIN.length} views; all triples${tier === "thorough" ? " and 4-sequences" : ""} of views for the main modes; deny-listing between renders at every position; all triples of ${SVG.length + 1} views with SVG content (deny-listed elements inside SVG and inside foreignObject) in ${2 * 3 * 2 * 2 * 5} configurations`,
	assumptions: ["DOM semantics are jsdom's", "with several reasons to rebuild everything, any applicable one may be reported; whether the very first render reports in a rebuild mode is left open", "configuration, flag and marks are in place before an element is first rendered"],
	*cases(tier) {
		yield* cases(tier);
	},
	exec(ctx, t) {
		const realm = ctx.realm(1500);
		const { defineIgniteConfig } = realm.api.index();
		if (realm !== this.lastRealm) {
			this.lastRealm = realm;
			realm.api.rendererJsx();
			this.deny = realm.api.jsxStrategy().registerNoDiffDenylistTag;
			this.deny("v-denied");
			this.deny("V-SHOUTED");
			this.deny("x-denied");
			this.deny("v-both");
			viewTag(realm, { key: "free", tag: "v-free" });
			viewTag(realm, { key: "host", tag: "v-denied" });
			viewTag(realm, { key: "HOST", tag: "v-shouted" });
			viewTag(realm, { key: "host+inner", tag: "v-both" });
			this.build = makeBuilder(realm.api, {});
		}
		const innerDenied = /inner/.test(t.deny);
		const late = t.deny === "late" ? realm.tag("x-late") : "x-calm";
		const tags = { D: innerDenied ? "x-denied" : "x-fine", L: late };
		const subst = (v) => (v === null || typeof v === "string" ? v : Array.isArray(v) ? [tags[v[0]] ?? v[0], v[1], ...v.slice(2).map(subst)] : { [Object.keys(v)[0]]: Object.values(v)[0].map(subst) });
		const hostTag = { host: "v-denied", HOST: "v-shouted", "host+inner": "v-both" }[t.deny] ?? "v-free";
		const marks = t.mark === "none" ? [] : t.mark === "both" ? ["data-ignite-nodiff", "data-ignite-hydrated"] : [t.mark];

		// what the result has to look like: a first render in the default mode
		delete process.env.IGNITE_DIFF_ENABLED;
		defineIgniteConfig({});
		this.fresh ??= new Map();
		const wanted = t.seq.map((n) => {
			const view = subst(VIEWS[n]);
			const key = JSON.stringify(view);
			if (!this.fresh.has(key)) {
				const h = new ViewHost(realm, { name: "v-free", first: this.build(view) });
				this.fresh.set(key, snap(h.root));
				h.close();
			}
			return this.fresh.get(key);
		});

		const config = {};
		if (t.strategy !== "~") config.strategy = t.strategy;
		if (t.logging !== "~") config.logging = t.logging;
		defineIgniteConfig(config);
		if (t.flag !== "~") process.env.IGNITE_DIFF_ENABLED = t.flag;
		realm.takeErrors();
		realm.takeLogs();

		const causes = [];
		if (t.strategy === "replace") causes.push("config-replace");
		if (t.flag === "false") causes.push("flag-disabled");
		if (marks.includes("data-ignite-nodiff")) causes.push("nodiff-attr");
		if (marks.includes("data-ignite-hydrated")) causes.push("hydrated");
		if (hostTag !== "v-free") causes.push(`denylist:${hostTag}`);
		const level = t.logging === "warn" ? "warn" : t.logging === "debug" ? "debug" : null;
		const denied = new Map();
		if (innerDenied) denied.set("D", "x-denied");

		const host = new ViewHost(realm, { name: hostTag, first: this.build(subst(VIEWS[t.seq[0]])), attrs: Object.fromEntries(marks.map((m) => [m, ""])), by: t.by });
		const root = host.root.querySelector("[data-ignite-jsx-root]");
		const reports = () =>
			realm.takeLogs().map(([lvl, args]) => {
				const text = args.map(String).join(" ");
				const known = [...causes, "child-order-change", ...[...denied.values()].map((d) => `denylist:${d}`)].filter((r) => text.includes(r));
				return { lvl, text, reason: known[0] ?? null, reasons: known };
			});
		const bad = (msg, i) => {
			ctx.fail(`${msg}`, { trace: { ...t, seq: t.seq.slice(0, i + 1) } });
			host.close();
		};
		try {
			let logs = reports();
			const initial = causes.length && level ? logs.every((l) => l.lvl === level && l.reasons.some((r) => causes.includes(r))) && logs.length <= 1 : logs.length === 0;
			if (!initial) return bad(`the first render reported ${JSON.stringify(logs.map((l) => [l.lvl, l.text]))}`, 0);
			for (let i = 1; i < t.seq.length; i++) {
				if (t.deny === "late" && t.at === i) {
					this.deny(i % 2 ? late : late.toUpperCase());
					denied.set("L", late);
				}
				const before = all(root);
				const p = plan(shape(VIEWS[t.seq[i - 1]]), shape(VIEWS[t.seq[i]]), denied);
				const keepNodes = p.keep.map((x) => at(root, x));
				host.render(this.build(subst(VIEWS[t.seq[i]])));
				ctx.step();
				const got = snap(host.root);
				ctx.state(got);
				if (got !== wanted[i]) return bad(`the content differs from a first render\n got  ${got}\n want ${wanted[i]}`, i);
				logs = reports();
				const texts = JSON.stringify(logs.map((l) => [l.lvl, l.text]));
				const after = all(root);
				if (causes.length) {
					const old = [...after].filter((n) => before.has(n));
					if (old.length) return bad(`rebuilding everything kept ${old.length} old nodes (${old[0].nodeName})`, i);
					if (level ? logs.length !== 1 || logs[0].lvl !== level || !logs[0].reasons.some((r) => causes.includes(r)) : logs.length) return bad(`a full rebuild because of ${causes} with logging ${t.logging} reported ${texts}`, i);
				} else {
					if (keepNodes.some((n, k) => !n || at(root, p.keep[k]) !== n)) return bad("an incremental render replaced a node it has to keep", i);
					for (const f of p.fresh) {
						const n = at(root, f);
						if (before.has(n)) return bad(`the node at [${f}] should have been rebuilt`, i);
					}
					const want = level ? p.reasons : [];
					if (logs.some((l) => l.lvl !== level) || JSON.stringify(logs.map((l) => l.reason).sort()) !== JSON.stringify([...want].sort())) return bad(`an incremental render that should report [${want}] at ${level} reported ${texts}`, i);
				}
				ctx.outcome(`${causes}|${level}|${p.reasons}`);
			}
			const errors = realm.takeErrors();
			if (errors.length) return bad(`threw ${errors[0]?.stack ?? errors[0]}`, t.seq.length);
			host.close();
		} finally {
			delete process.env.IGNITE_DIFF_ENABLED;
		}
	},
};

function all(root) {
	const out = new Set();
	const go = (n) => {
		for (const c of n.childNodes) {
			out.add(c);
			go(c);
		}
	};
	go(root);
	return out;
}
function at(root, path) {
	let n = root;
	for (const i of path) n = n?.childNodes[i];
	return n;
}
