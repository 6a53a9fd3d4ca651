// Overlapping configuration loads at microtask granularity.
import { permutations, sequences } from "../lib/enum.mjs";

// kind -> what the loader delivers; want: the configuration that has to be in force afterwards (null: none, "reject")
const KINDS = {
	wA: { module: () => ({ default: { styles: "/a.css" } }), want: { styles: "/a.css" } },
	pJ: { module: () => ({ renderer: "ignite-jsx", logging: "warn" }), want: { renderer: "ignite-jsx", logging: "warn" } },
	wL: { module: () => ({ default: { renderer: "lit", styles: { href: "/l.css" } }, other: 1 }), want: { renderer: "lit", styles: { href: "/l.css" } } },
	pS: { module: () => ({ strategy: "replace" }), want: { strategy: "replace" } },
	wU: { module: () => ({ default: { renderer: "vue" } }), want: { renderer: "lit" } },
	old: { module: () => ({ globalStyles: "/o.css" }), want: { styles: "/o.css" } },
	both: { module: () => ({ default: { globalStyles: "/o.css", styles: "/n.css", extra: true } }), want: { styles: "/n.css" } },
	rej: { reject: true, want: "reject" },
	thr: { throws: true, want: "reject" },
	inv: { module: () => ({ default: { styles: ["/a.css"], logging: "debug" } }), want: "reject" },
	mt: { module: () => ({ default: undefined, styles: "/x.css" }), want: null },
	nul: { module: () => null, want: null },
	str: { module: () => ({ default: "x" }), want: null },
	e: { module: () => ({}), want: {} },
	sync: { module: () => ({ default: { logging: "off" } }), sync: true, want: { logging: "off" } },
	frz: { module: () => Object.freeze({ default: Object.freeze({ renderer: "lit", logging: "loud" }) }), want: { renderer: "lit", logging: "loud" } },
};
const ALL = Object.keys(KINDS);
const CORE = ["wA", "pJ", "wL", "rej", "mt", "inv"];

const ORDERS2 = [
	["s0", "r0", "s1", "r1"], ["s0", "s1", "r0", "r1"], ["s0", "s1", "r1", "r0"],
];

function* cases(tier) {
	const thorough = tier === "thorough";
	for (const initial of ["none", "defined"]) {
		for (const k of ALL) for (let g = 0; g <= 8; g++) for (let after = 0; after <= 8; after++) yield { initial, kinds: [k], order: ["s0", "r0"], gaps: [g, after] };
		const gaps = thorough ? [0, 1, 2, 3, 4, 5, 6] : [0, 1, 2, 3, 4];
		for (const kinds of sequences(ALL, 2)) for (const order of ORDERS2) for (const g of sequences(gaps, 3)) yield { initial, kinds, order, gaps: [...g, 8] };
		const small = thorough ? ALL : CORE;
		for (const kinds of sequences(small, 3)) for (const p of permutations(["r0", "r1", "r2"])) for (const g of sequences(thorough ? [0, 1, 3] : [0, 2], 2)) yield { initial, kinds, order: ["s0", "s1", "s2", ...p], gaps: [0, 0, 1, ...g, 8] };
	}
}

const same = (a, b) => canon(a) === canon(b);
const canon = (v) => (v && typeof v === "object" ? `{${Object.keys(v).sort().filter((k) => v[k] !== undefined).map((k) => `${k}:${canon(v[k])}`)}}` : JSON.stringify(v));

export default {
	id: "C17",
	bounds: (tier) => `every single load of ${ALL.length} outcomes at 81 microtask timings; every pair of loads (${ALL.length}x${ALL.length} outcomes, 3 start/arrival orders, ${tier === "thorough" ? 343 : 125} microtask gap patterns); every triple of ${tier === "thorough" ? ALL.length : CORE.length} outcomes in all 6 arrival orders with ${tier === "thorough" ? 9 : 4} gap patterns; with and without a previous configuration`,
	assumptions: ["a module 'arrives' when the promise its loader returned settles", "between a module's arrival and the settlement of its load, either configuration may be observed"],
	*cases(tier) {
		yield* cases(tier);
	},
	async exec(ctx, t) {
		const realm = ctx.realm(400);
		const api = realm.reload();
		const { loadIgniteConfig, getIgniteConfig, defineIgniteConfig, igniteElementFactory } = api.index();
		const fail = (msg) => ctx.fail(msg);
		const initial = t.initial === "none" ? undefined : defineIgniteConfig({ logging: "debug" });
		// a root that waits for styles
		const waitTag = realm.tag("wait");
		const adapter = () => ({ scope: "isolated", subscribe: (l) => (l({ n: 1 }), { unsubscribe() {} }), getState: () => ({ n: 1 }), send() {}, stop() {} });
		igniteElementFactory(adapter, { createRenderStrategy: api.rendererJsx().createIgniteJsxRenderStrategy })(waitTag, () => "w");
		const waiting = realm.document.createElement(waitTag);
		realm.takeLogs();

		const settled = [];
		const arrived = []; // loads in arrival order
		const problems = [];
		const loads = t.kinds.map((k, i) => {
			let settle;
			const promise = new Promise((res, rej) => {
				settle = { res, rej };
			});
			promise.catch(() => {});
			return { i, kind: KINDS[k], name: k, settle, promise, error: new Error(`loader ${i}`) };
		});
		const applied = () => arrived.filter((l) => l.kind.want && l.kind.want !== "reject");
		const expectedNow = () => applied().at(-1)?.kind.want;

		const probe = (label, config) => {
			const tag = realm.tag("probe");
			realm.takeLogs();
			let el;
			try {
				igniteElementFactory(adapter)(tag, () => "p");
				el = realm.document.createElement(tag);
				realm.document.body.append(el);
			} catch (e) {
				return problems.push(`${label}: registering a component threw ${e}`);
			}
			const used = el.shadowRoot.querySelector("[data-ignite-jsx-root]") ? "ignite-jsx" : "lit";
			const warned = realm.takeLogs().some(([, a]) => /not registered/.test(String(a[0])));
			el.remove();
			const want = config?.renderer ?? "ignite-jsx";
			if (used !== want || warned) problems.push(`${label}: a component registered now uses ${used} (warning: ${warned}) instead of ${want}`);
		};

		const start = (l) => {
			const fn = () => {
				if (l.kind.throws) throw l.error;
				if (l.kind.sync) return l.kind.module();
				return l.promise;
			};
			if (l.kind.throws || l.kind.sync) arrived.push(l);
			let p;
			try {
				p = loadIgniteConfig(fn);
			} catch (e) {
				problems.push(`load ${l.i} threw instead of rejecting: ${e}`);
				settled.push(l);
				return;
			}
			l.result = p.then(
				(value) => {
					settled.push(l);
					const { want } = l.kind;
					const active = getIgniteConfig();
					if (want === "reject") return problems.push(`load ${l.i} (${l.name}) resolved to ${canon(value)} instead of rejecting`);
					if (want === null) {
						if (value !== undefined) problems.push(`load ${l.i} without a configuration resolved to ${canon(value)}`);
						return;
					}
					if (!same(value, want)) problems.push(`load ${l.i} (${l.name}) resolved to ${canon(value)} instead of ${canon(want)}`);
					const later = arrived.slice(arrived.indexOf(l)).filter((x) => x.kind.want && x.kind.want !== "reject");
					if (!later.some((x) => same(active, x.kind.want))) problems.push(`when load ${l.i} (${l.name}) resolved, the configuration in force was ${canon(active)}`);
					if (later.length === 1 && active !== value) problems.push(`load ${l.i} (${l.name}) did not return the configuration in force`);
					if (later.length === 1) probe(`when load ${l.i} (${l.name}) resolved`, want);
					if (want.styles && waiting.shadowRoot.querySelectorAll("link").length !== 1) problems.push(`when load ${l.i} (${l.name}) resolved, a waiting root had ${waiting.shadowRoot.querySelectorAll("link").length} stylesheet links`);
				},
				(error) => {
					settled.push(l);
					if (l.kind.want !== "reject") problems.push(`load ${l.i} (${l.name}) rejected with ${error?.stack ?? error}`);
					else if ((l.kind.reject || l.kind.throws) && error !== l.error) problems.push(`load ${l.i} rejected with ${error} instead of the loader's own error`);
					else if (!(error instanceof Error)) problems.push(`load ${l.i} rejected with ${error}`);
				},
			);
		};
		const arrive = (l) => {
			if (!l.kind.throws && !l.kind.sync) arrived.push(l);
			if (l.kind.reject) l.settle.rej(l.error);
			else if (!l.kind.throws && !l.kind.sync) l.settle.res(l.kind.module());
		};
		for (let n = 0; n < t.order.length; n++) {
			const step = t.order[n];
			const l = loads[Number(step[1])];
			if (step[0] === "s") start(l);
			else arrive(l);
			ctx.step();
			for (let g = 0; g < (t.gaps[n] ?? 0); g++) await null;
			const active = getIgniteConfig();
			if (![undefined, initial, ...arrived.map((x) => x.kind.want)].some((c) => (c === undefined ? active === undefined && !initial : c && c !== "reject" && same(active, c)))) problems.push(`after ${t.order.slice(0, n + 1)} the configuration in force is ${canon(active)}`);
			if (active === undefined && initial) problems.push("the previous configuration was lost");
		}
		for (let n = 0; n < 60 && settled.length < loads.length; n++) await null;
		for (let n = 0; n < 10; n++) await null;
		if (settled.length < loads.length) await new Promise((r) => setImmediate(r));
		if (settled.length !== loads.length) problems.push(`only ${settled.length} of ${loads.length} loads settled`);
		const want = expectedNow();
		const active = getIgniteConfig();
		if (want ? !same(active, want) : active !== initial) problems.push(`in the end the configuration in force is ${canon(active)} instead of ${canon(want ?? initial)}`);
		probe("in the end", want ?? initial);
		const styled = applied().some((l) => l.kind.want.styles);
		const links = [...waiting.shadowRoot.querySelectorAll("link")].map((l) => l.getAttribute("href"));
		if (links.length !== (styled ? 1 : 0)) problems.push(`in the end the waiting root has stylesheets [${links}]`);
		ctx.state(`${canon(active)}|${links}|${settled.map((l) => l.name)}`);
		ctx.outcome(`${t.kinds}|${settled.map((l) => l.i)}`);
		if (problems.length) fail(problems[0]);
	},
};
