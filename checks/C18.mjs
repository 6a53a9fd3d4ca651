// Which renderer a component uses, for every order of configuring, importing/registering renderers and creating components.
import { libs } from "../lib/realm.mjs";

const CFG = { "cfg:lit": { renderer: "lit" }, "cfg:jsx": { renderer: "ignite-jsx" }, "cfg:none": {}, "cfg:unknown": { renderer: "vue" }, "cfg:style": { logging: "off" } };
const OPS = ["cfg:lit", "cfg:jsx", "cfg:none", "cfg:unknown", "imp:lit", "imp:jsx", "reg:lit", "reg:ignite-jsx", "mk", "mkc", "mkx"];
const EMPTY = ["reg:other", "reg:lit", "reg:ignite-jsx", "imp:lit", "load:jsx", "again:lit", "cfg:lit", "cfg:jsx", "cfg:unknown", "clear", "mk", "mkc", "mkr"];
const MORE = ["load:lit", "load:jsx", "reg:other", "cfg:style", "again:lit", "clear", "mkr"];

function* histories(ops, depth, maxMk = 3) {
	function* go(prefix, mk) {
		if (prefix.length === depth) {
			if (mk) yield prefix;
			return;
		}
		for (const op of ops) {
			const isMk = op.startsWith("mk");
			if (isMk && mk >= maxMk) continue;
			if (depth - prefix.length === 1 && !isMk && !mk) continue;
			yield* go([...prefix, op], mk + (isMk ? 1 : 0));
		}
	}
	yield* go([], 0);
}

export default {
	id: "C18",
	bounds: (tier) => `all histories of length ${tier === "thorough" ? 6 : 5} over ${OPS.length} operations and of length ${tier === "thorough" ? 5 : 4} over ${OPS.length + MORE.length} operations and of length ${tier === "thorough" ? 5 : 4} over ${EMPTY.length} operations starting without any renderer (configure, load, import or re-register renderers, create components with and without an explicit strategy), with elements of every component created and re-rendered after every later operation`,
	assumptions: ["registering a name again replaces the factory for components created later", "with no JSX renderer registered, which other registered renderer stands in is left open"],
	*cases(tier) {
		const thorough = tier === "thorough";
		for (const h of histories(OPS, thorough ? 6 : 5, 2)) yield { ops: h };
		for (const h of histories([...OPS, ...MORE], thorough ? 5 : 4)) yield { ops: h };
		for (const h of histories(EMPTY, thorough ? 5 : 4)) yield { ops: ["clear", ...h] };
	},
	async exec(ctx, t) {
		const realm = ctx.realm(400);
		const api = realm.reload();
		const { igniteElementFactory, defineIgniteConfig, registerRenderStrategy, loadIgniteConfig } = api.index();
		realm.takeLogs();
		let registry = { "ignite-jsx": "ignite-jsx" };
		let litImported = false;
		let configured = "ignite-jsx";
		let serial = 0;
		const comps = [];
		const fail = (msg, i) => ctx.fail(msg, { trace: { ...t, ops: t.ops.slice(0, i + 1) } });
		const custom = (id) => () => {
			let host;
			return {
				attach(h) {
					host = h;
				},
				render(view) {
					host.innerHTML = `<x-custom id="${id}"></x-custom>`;
					host.firstChild.textContent = String(view);
				},
				detach() {},
			};
		};
		const usedBy = (el) => (el.shadowRoot.querySelector("[data-ignite-jsx-root]") ? "ignite-jsx" : (el.shadowRoot.querySelector("x-custom")?.id ?? "lit"));
		const importLit = () => {
			api.rendererLit();
			if (!litImported) registry.lit = "lit";
			litImported = true;
		};
		for (let i = 0; i < t.ops.length; i++) {
			const op = t.ops[i];
			ctx.step();
			if (op.startsWith("cfg:")) {
				defineIgniteConfig(CFG[op]);
				configured = op === "cfg:unknown" ? "lit" : (CFG[op].renderer ?? "ignite-jsx");
			} else if (op.startsWith("load:")) {
				const renderer = op === "load:lit" ? "lit" : "ignite-jsx";
				await loadIgniteConfig(async () => ({ default: { renderer } }));
				configured = renderer;
				if (renderer === "lit" && !litImported) {
					registry.lit = "lit";
					litImported = true;
				}
			} else if (op === "imp:lit") importLit();
			else if (op === "imp:jsx") api.rendererJsx();
			else if (op === "again:lit") {
				registerRenderStrategy("lit", api.rendererLit().createLitRenderStrategy);
				litImported = true;
				registry.lit = "lit";
			} else if (op.startsWith("reg:")) {
				const id = `custom${++serial}`;
				registerRenderStrategy(op.slice(4), custom(id));
				registry[op.slice(4)] = id;
			} else if (op === "clear") {
				api.resolve().clearRegisteredRenderStrategiesForTests();
				registry = {};
			} else {
				realm.takeLogs();
				const tag = realm.tag("comp");
				const box = { listeners: new Set(), n: 1 };
				let want;
				let warn = false;
				let thrown = null;
				const explicit = op === "mkx" ? `explicit${++serial}` : null;
				if (explicit) want = explicit;
				else if (registry[configured]) want = registry[configured];
				else if (registry["ignite-jsx"]) {
					want = registry["ignite-jsx"];
					warn = true;
				} else want = Object.keys(registry).length ? "any" : "throw";
				try {
					if (op === "mkc") {
						const store = libs.rtk.configureStore({ reducer: (s = { n: 1 }, a) => (a.type === "inc" ? { n: s.n + 1 } : s) });
						box.bump = () => store.dispatch({ type: "inc" });
						box.text = () => `n${store.getState().n}`;
						api.core().igniteCore({ source: store })(tag, ({ state }) => `n${state.n}`);
					} else {
						box.bump = () => {
							box.n++;
							for (const l of [...box.listeners]) l({ n: box.n });
						};
						box.text = () => `n${box.n}`;
						const register = igniteElementFactory(
							() => ({
								scope: "isolated",
								subscribe: (l) => (box.listeners.add(l), l({ n: box.n }), { unsubscribe: () => box.listeners.delete(l) }),
								getState: () => ({ n: box.n }),
								send() {},
								stop() {},
							}),
							explicit ? { createRenderStrategy: custom(explicit) } : undefined,
						);
						if (op === "mkr") {
							// the factory is created now, the tag only later
							box.late = () => register(tag, ({ state }) => `n${state.n}`);
						} else register(tag, ({ state }) => `n${state.n}`);
					}
				} catch (e) {
					thrown = e;
				}
				const warnings = realm.takeLogs().filter(([l]) => l === "warn" || l === "error");
				if (want === "throw") {
					if (!(thrown instanceof Error)) return fail("creating a component without any renderer did not fail", i);
					if (realm.window.customElements.get(tag)) return fail("a component without any renderer was registered", i);
				} else {
					if (thrown) return fail(`creating a component threw ${thrown?.stack ?? thrown}`, i);
					if (want !== "any" && (warnings.length > 0) !== warn) return fail(`creating a component (configured ${configured}, available ${Object.keys(registry)}${explicit ? ", explicit strategy" : ""}) warned ${warnings.length} times`, i);
					comps.push({ tag, want, box, live: null });
				}
			}
			for (const c of comps) {
				if (c.box.late && i === t.ops.length - 1) c.box.late();
				else if (c.box.late) continue;
				const el = realm.document.createElement(c.tag);
				realm.document.body.append(el);
				const used = usedBy(el);
				if (c.want === "any") c.want = used;
				if (used !== c.want) return fail(`an element of a component created for ${c.want} is rendered by ${used}`, i);
				c.box.bump();
				for (const e of [el, c.live]) {
					if (!e) continue;
					if (usedBy(e) !== c.want) return fail(`an element changed its renderer from ${c.want} to ${usedBy(e)}`, i);
					if (e.shadowRoot.textContent.trim() !== c.box.text()) return fail(`an element rendered by ${c.want} shows ${e.shadowRoot.textContent} instead of ${c.box.text()}`, i);
				}
				if (c.live) el.remove();
				else c.live = el;
			}
			const errors = realm.takeErrors();
			if (errors.length) return fail(`threw ${errors[0]?.stack ?? errors[0]}`, i);
			ctx.state(`${configured}|${Object.keys(registry)}|${comps.map((c) => c.want.replace(/\d+/, ""))}`);
		}
		for (const c of comps) c.live?.remove();
	},
};
