// Importing every entry point, in every order, in runtimes with none, some or all of the DOM globals.
import { createRequire } from "node:module";
import { REPO } from "../lib/build.mjs";
import { product, sequences } from "../lib/enum.mjs";
import { evaluateBundle, libs, override, resetGlobals } from "../lib/realm.mjs";

const { JSDOM } = createRequire(`${REPO}/package.json`)("jsdom");
const ENTRIES = ["index", "xstate", "redux", "mobx", "rendererJsx", "rendererLit", "jsx", "jsxRuntime", "jsxDevRuntime", "loadConfig", "vite", "webpack"];
const ENVS = {
	HTMLElement: ["absent", "undefined", "real", "readonly"],
	customElements: ["absent", "undefined", "real", "readonly", "own"],
	window: [false, true],
	document: [false, true],
	CustomEvent: [false, true],
};
const FEW = { ...ENVS, HTMLElement: ["absent", "real"], customElements: ["absent", "real"], CustomEvent: [true] };
const CONFIGS = [{}, { renderer: "lit" }, { renderer: "ignite-jsx", styles: "/a.css" }, { strategy: "replace", styles: { href: "/b.css" }, logging: "off" }, { renderer: "nope" }];

function* distinct(n) {
	for (const s of sequences(ENTRIES, n)) if (new Set(s).size === n) yield s;
}

function* cases(tier) {
	const orders = [...distinct(1), ...distinct(2), ENTRIES, [...ENTRIES].reverse()];
	for (const env of product(ENVS)) for (const order of orders) yield { env, order };
	const longer = [...distinct(3)];
	for (const env of product(tier === "thorough" ? ENVS : FEW)) for (const order of longer) yield { env, order };
	if (tier === "thorough") for (const env of product(FEW)) for (const order of distinct(4)) yield { env, order };
	for (const env of product(ENVS)) for (const order of [["index"], ["loadConfig", "index"], ["index", "loadConfig", "rendererLit"], ["loadConfig", "redux", "index"]]) for (const config of CONFIGS.keys()) for (const wrapped of [false, true]) yield { env, order, config, wrapped };
}

const mock = () => {
	let listener = null;
	return { subscribe: (l) => ((listener = l), l({ n: 1 }), { unsubscribe() {} }), send: () => listener?.({ n: 2 }), getState: () => ({ n: 1 }), stop() {} };
};

export default {
	id: "C21",
	bundle: { conditions: ["node", "import"] },
	bounds: (tier) => `${[...product(ENVS)].length} runtimes (element class absent, undefined, present or read-only; registry absent, undefined, present, read-only or foreign; window, document and CustomEvent present or not) x all ordered imports of 1 and 2 of ${ENTRIES.length} entry points and all of them in both orders; ${tier === "thorough" ? "3 entry points in every runtime, 4 in 16" : "3 entry points in 16 runtimes"}; ${CONFIGS.length} configurations loaded in each runtime; the whole graph loaded a second time`,
	assumptions: ["lit-html resolves to its server build, as in Node", "elements are created only where both the element class and the registry are the runtime's own"],
	*cases(tier) {
		yield* cases(tier);
	},
	async exec(ctx, t) {
		resetGlobals();
		if (!this.dom || this.uses++ > 400) {
			this.dom?.window.close();
			this.dom = new JSDOM("<!doctype html><body></body>", { url: "http://localhost/" });
			this.uses = 0;
		}
		const { window } = this.dom;
		const doc = window.document;
		const own = new Map();
		const registries = { real: window.customElements, readonly: window.customElements, own: { define: (n, c) => void own.set(n, c), get: (n) => own.get(n) } };
		const set = (key, kind, value) => {
			if (kind === "absent" || kind === false) override(key, null);
			else if (kind === "undefined") override(key, { value: undefined, writable: true });
			else if (kind === "readonly") override(key, { get: () => value });
			else override(key, { value, writable: true });
		};
		const said = [];
		const keep = { ...console };
		try {
			set("HTMLElement", t.env.HTMLElement, window.HTMLElement);
			set("customElements", t.env.customElements, registries[t.env.customElements]);
			set("window", t.env.window, t.env.document ? window : {});
			set("document", t.env.document, doc);
			if (!t.env.CustomEvent) set("CustomEvent", false);
			doc.body.innerHTML = "<x-pre a=1><b>hi</b></x-pre><x-later></x-later>";
			const html = doc.documentElement.outerHTML;
			const observer = new window.MutationObserver(() => {});
			observer.observe(doc, { subtree: true, childList: true, attributes: true, characterData: true });
			for (const level of ["log", "info", "warn", "error", "debug"]) console[level] = (...a) => said.push([level, ...a]);
			const given = new Map(Object.keys(t.env).map((k) => [k, Object.getOwnPropertyDescriptor(globalThis, k)]));
			const untouched = (when) => {
				for (const [k, d] of given) {
					const had = d && (d.get || d.value !== undefined);
					const now = Object.getOwnPropertyDescriptor(globalThis, k);
					if (had && (!now || now.get !== d.get || now.value !== d.value || now.writable !== d.writable || now.enumerable !== d.enumerable)) return `${when}: the runtime's ${k} was replaced or changed`;
					if (!had && k !== "HTMLElement" && k !== "customElements" && now && now.value !== undefined) return `${when}: ${k} was added to the runtime`;
				}
				if (doc.documentElement.outerHTML !== html || observer.takeRecords().length) return `${when}: the document was changed`;
				return null;
			};
			const api = evaluateBundle(ctx.bundleFile);
			const got = {};
			for (const name of t.order) {
				ctx.step();
				try {
					got[name] = api[name]();
				} catch (e) {
					return ctx.fail(`importing ${name} in ${JSON.stringify(t.env)} threw ${e?.message ?? e}`);
				}
				const problem = untouched(`importing ${name}`) ?? (own.size ? `importing ${name} defined an element` : null);
				if (problem) return ctx.fail(problem);
			}
			const stubs = [globalThis.HTMLElement, globalThis.customElements];

			if (t.config !== undefined) {
				const load = got.loadConfig?.loadIgniteConfig ?? got.index?.loadIgniteConfig;
				const given = CONFIGS[t.config];
				const frozen = Object.freeze({ ...given });
				let result;
				try {
					result = await load(async () => (t.wrapped ? { default: frozen } : frozen));
				} catch (e) {
					return ctx.fail(`loading a configuration in ${JSON.stringify(t.env)} threw ${e?.message ?? e}`);
				}
				ctx.step();
				const expected = JSON.stringify({ ...given, ...(given.renderer === "nope" ? { renderer: "lit" } : {}) }, ["href", "logging", "renderer", "strategy", "styles"]);
				const active = got.index?.getIgniteConfig() ?? result;
				for (const [what, v] of [["the loaded", result], ["the active", active]]) if (JSON.stringify(v, ["href", "logging", "renderer", "strategy", "styles"]) !== expected) return ctx.fail(`${what} configuration is ${JSON.stringify(v)} instead of ${expected}`);
				const problem = untouched("loading a configuration");
				if (problem) return ctx.fail(problem);
				for (const bad of [undefined, null, { default: undefined }]) {
					const r = await load(async () => bad).catch((e) => e);
					if (r !== undefined) return ctx.fail(`loading an empty configuration gave ${r}`);
				}
				const failure = new Error("no config");
				const r = await load(() => Promise.reject(failure)).catch((e) => e);
				if (r !== failure) return ctx.fail(`a failing configuration gave ${r}`);
			}

			// registering components
			this.seq = (this.seq ?? 0) + 1;
			const tags = [];
			const register = (label, fn) => {
				const tag = `t-${label}-${this.seq.toString(36)}`;
				try {
					fn(tag);
				} catch (e) {
					ctx.fail(`registering a component (${label}) in ${JSON.stringify(t.env)} threw ${e?.message ?? e}`);
					return false;
				}
				ctx.step();
				tags.push(tag);
				return true;
			};
			const registrations = [];
			if (got.index) {
				const { igniteElementFactory, StateScope } = got.index;
				registrations.push(["iso", (tag) => igniteElementFactory(mock)(tag, () => `n`)]);
				registrations.push(["shared", (tag) => igniteElementFactory(mock, { scope: StateScope.Shared })(tag, { render: () => "n" })]);
				registrations.push(["cls", (tag) => igniteElementFactory(mock)(tag, class { render() { return "n"; } })]);
				if (got.rendererLit) registrations.push(["lit", (tag) => igniteElementFactory(mock, { createRenderStrategy: got.rendererLit.createLitRenderStrategy })(tag, () => "n")]);
			}
			if (got.xstate) registrations.push(["xstate", (tag) => got.xstate.igniteCore({ source: libs.xstate.createMachine({ initial: "a", states: { a: {} } }) })(tag, () => "n")]);
			if (got.redux) registrations.push(["redux", (tag) => got.redux.igniteCore({ source: libs.rtk.configureStore({ reducer: () => ({}) }) })(tag, () => "n")]);
			if (got.mobx) registrations.push(["mobx", (tag) => got.mobx.igniteCore({ source: () => libs.mobx.makeAutoObservable({ n: 1 }) })(tag, () => "n")]);
			for (const [label, fn] of registrations) if (!register(label, fn)) return;
			if (registrations.length && t.env.customElements === "own" && own.size !== tags.length) return ctx.fail(`${own.size} of ${tags.length} components reached the runtime's registry`);
			if (["real", "readonly"].includes(t.env.customElements)) for (const tag of tags) if (!window.customElements.get(tag)) return ctx.fail(`<${tag}> is not in the runtime's registry`);
			const problem = untouched("registering components");
			if (problem) return ctx.fail(problem);

			// the same entry points once more, as another copy of the library
			const again = evaluateBundle(ctx.bundleFile);
			for (const name of t.order) {
				try {
					again[name]();
				} catch (e) {
					return ctx.fail(`importing ${name} again threw ${e?.message ?? e}`);
				}
				ctx.step();
				if (globalThis.HTMLElement !== stubs[0] || globalThis.customElements !== stubs[1]) return ctx.fail(`importing ${name} again replaced the element class or registry`);
			}
			const later = untouched("importing again");
			if (later) return ctx.fail(later);

			const complete = ["real", "readonly"].includes(t.env.HTMLElement) && ["real", "readonly"].includes(t.env.customElements) && t.env.window && t.env.document;
			if (complete && tags.length && t.config === undefined) {
				const tag = tags[0];
				const el = doc.createElement(tag);
				doc.body.append(el);
				if (!el.shadowRoot || el.shadowRoot.textContent !== "n") return ctx.fail(`<${tag}> shows ${JSON.stringify(el.shadowRoot?.textContent)} where the whole DOM is there`);
				el.remove();
			}
			ctx.state(JSON.stringify([t.env, [...t.order].sort(), t.config]));
			ctx.outcome(JSON.stringify([given.get("HTMLElement") === undefined, stubs[0] === undefined, stubs[1] === undefined, said.length]));
		} finally {
			Object.assign(console, keep);
			resetGlobals();
		}
	},
};
