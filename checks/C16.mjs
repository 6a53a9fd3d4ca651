// Stylesheet links in component roots under every history of creation, insertion, rendering and configuration.
const STYLES = {
	a: { cfg: "/a.css", link: { href: "/a.css" } },
	b: { cfg: "./b.scss?v=1#x", link: { href: "./b.scss?v=1#x" } },
	obj: { cfg: { href: "https://cdn/x.css", integrity: "sha384-abc", crossOrigin: "anonymous" }, link: { href: "https://cdn/x.css", integrity: "sha384-abc", crossorigin: "anonymous" } },
	obj2: { cfg: { href: "/a.css", crossOrigin: "use-credentials" }, link: { href: "/a.css", crossorigin: "use-credentials" } },
	obj3: { cfg: { href: "/c.css", integrity: "sha256-c" }, link: { href: "/c.css", integrity: "sha256-c" } },
	obj4: { cfg: { href: "/style?v=2" }, link: { href: "/style?v=2" } },
	spaced: { cfg: " /a.css ", link: { href: " /a.css " } },
	query: { cfg: "/q.css?x=/theme.js", link: { href: "/q.css?x=/theme.js" } },
	bad3: { cfg: "/theme.js?next=a.css", link: null },
	bad: { cfg: "/theme.js", link: null },
	bad2: { cfg: "nothing", link: null },
	none: { cfg: undefined, link: null },
};

const BASE = ["newJ", "newL", "tog0", "tog1", "send0", "send1"];
// components whose views bring stylesheets of their own
const OWN = ["newK", "newM", "tog0", "send0", "load:a", "load:obj", "load:none", "set:b"];
const CFG_QUICK = ["load:a", "load:obj", "load:bad", "load:none", "set:b", "define:a"];
const CFG_MORE = ["load:b", "load:obj2", "load:obj3", "load:obj4", "load:bad2", "set:a", "set:none", "define:obj", "load:a+lit", "old:a", "load:spaced", "load:query", "load:bad3"];
const DURING = ["newJ", "newL", "tog0", "send0", "set:b", "load:obj"];

function* histories(ops, depth, maxEls = 2) {
	function* go(prefix, els, configs) {
		if (prefix.length === depth) {
			if (els) yield prefix;
			return;
		}
		for (const op of ops) {
			if (op.startsWith("new") && els >= maxEls) continue;
			if (/^(tog|send)/.test(op) && Number(op.at(-1)) >= els) continue;
			const cfg = /:/.test(op);
			if (cfg && configs >= 3) continue;
			yield* go([...prefix, op], els + (op.startsWith("new") ? 1 : 0), configs + (cfg ? 1 : 0));
		}
	}
	yield* go([], 0, 0);
}

export default {
	id: "C16",
	bounds: (tier) => `all histories up to length ${tier === "thorough" ? 6 : 5} over ${BASE.length + CFG_QUICK.length} operations on at most two elements (either renderer), all histories of length ${tier === "thorough" ? 5 : 4} over ${BASE.length + CFG_QUICK.length + CFG_MORE.length} operations with ${Object.keys(STYLES).length} style values, all histories of length ${tier === "thorough" ? 6 : 5} on components whose views contain links and styles of their own, and one operation at each of 8 microtask positions inside a load after every history of length ${tier === "thorough" ? 4 : 3}`,
	assumptions: ["whether changing the style without loading a configuration reaches already waiting roots is left open", "jsdom does not fetch stylesheets; presence and attributes of the link are what is checked"],
	*cases(tier) {
		const thorough = tier === "thorough";
		for (const h of histories([...BASE, ...CFG_QUICK], thorough ? 6 : 5)) yield { ops: h };
		for (const h of histories([...BASE, ...CFG_QUICK, ...CFG_MORE], thorough ? 5 : 4)) yield { ops: h };
		for (const h of histories(OWN, thorough ? 6 : 5)) yield { ops: h };
		for (const h of histories([...BASE, "load:bad", "set:b"], thorough ? 4 : 3))
			for (const k of ["a", "obj", "none", "a+lit"])
				for (const d of DURING) {
					if (/^(tog|send)/.test(d) && !h.some((o) => o.startsWith("new"))) continue;
					for (let tick = 0; tick < 8; tick++) yield { ops: [...h, `during:${k}:${tick}:${d}`, "newJ", "send0"] };
				}
	},
	async exec(ctx, t) {
		const realm = ctx.realm(400);
		const api = realm.reload();
		const { igniteElementFactory, loadIgniteConfig, setGlobalStyles, defineIgniteConfig } = api.index();
		const { createIgniteJsxRenderStrategy } = api.rendererJsx();
		const { createLitRenderStrategy } = api.rendererLit();
		const { jsx } = api.jsxRuntime();
		const { html } = api.lit();
		const tags = { J: realm.tag("sj"), L: realm.tag("sl"), K: realm.tag("sk"), M: realm.tag("sm") };
		const sources = { J: source(), L: source(), K: source(), M: source() };
		const views = {
			J: ({ state }) => (state.n % 2 ? jsx("p", { children: `J${state.n}` }) : [jsx("b", { children: `J${state.n}` }), jsx("i", {})]),
			L: ({ state }) => (state.n % 2 ? html`<p>L${state.n}</p>` : html`<b>L${state.n}</b><i></i>`),
			K: ({ state }) => [jsx("link", { rel: "stylesheet", href: "/own.css", "data-own": "1" }), jsx("style", { "data-own": "1" }), jsx("p", { children: `K${state.n}` })].slice(state.n % 2 ? 0 : 1),
			M: ({ state }) => (state.n % 2 ? html`<link rel="stylesheet" href="/own.css" data-own="1" /><p>M${state.n}</p>` : html`<style data-own="1"></style><p>M${state.n}</p>`),
		};
		for (const k of ["J", "L", "K", "M"])
			igniteElementFactory(sources[k].adapter, { scope: "shared", createRenderStrategy: "JK".includes(k) ? createIgniteJsxRenderStrategy : createLitRenderStrategy })(tags[k], views[k]);

		const els = [];
		let current = null; // usable stylesheet in force
		const fail = (msg, i) => ctx.fail(msg, { trace: { ...t, ops: t.ops.slice(0, i + 1) } });
		const configFor = (k) => {
			const [name, lit] = k.split("+");
			const c = {};
			if (STYLES[name].cfg !== undefined) c.styles = STYLES[name].cfg;
			if (lit) c.renderer = "lit";
			return c;
		};
		const apply = (k) => {
			const name = k.split("+")[0];
			if (name !== "none") current = STYLES[name].link;
		};
		const simple = (op) => {
			if (op.startsWith("new")) {
				els.push({ kind: op[3], el: realm.document.createElement(tags[op[3]]), link: null, must: true });
			} else if (op.startsWith("tog")) {
				const e = els[Number(op[3])].el;
				if (e.isConnected) e.remove();
				else realm.document.body.append(e);
			} else if (op.startsWith("send")) sources[els[Number(op[4])].kind].bump();
			else if (op.startsWith("set:")) {
				const k = op.slice(4);
				setGlobalStyles(STYLES[k].cfg);
				current = STYLES[k].link;
			} else if (op.startsWith("define:")) {
				defineIgniteConfig(configFor(op.slice(7)));
				apply(op.slice(7));
			} else throw new Error(op);
		};
		/** force: every root without a stylesheet must have the current one now; open: what a link may be besides */
		const verify = (i, force, open = []) => {
			for (const e of els) {
				const root = e.el.shadowRoot;
				const links = [...root.querySelectorAll("link, style")].filter((l) => !l.hasAttribute("data-own")).map((l) => `${l.localName} ${l.getAttribute("rel")} ${JSON.stringify({ href: l.getAttribute("href")?.trim(), integrity: l.integrity || l.getAttribute("integrity") || undefined, crossorigin: l.getAttribute("crossorigin") || l.crossOrigin || undefined })}`);
				const show = (l) => `link stylesheet ${JSON.stringify({ href: l.href.trim(), integrity: l.integrity, crossorigin: l.crossorigin })}`;
				if (links.length > 1) return fail(`a root has ${links.length} stylesheet links: ${links}`, i), false;
				if (e.link) {
					if (links[0] !== e.link) return fail(`a root that had ${e.link} now has ${links[0]}`, i), false;
				} else {
					const allowed = [current, ...open].filter(Boolean).map(show);
					const needed = current && (force || e.must);
					if (links.length ? !allowed.includes(links[0]) : needed) return fail(`a root has [${links}], the configured stylesheet is ${current ? show(current) : "none"}`, i), false;
					if (links.length) e.link = links[0];
				}
				e.must = false;
				const own = [...root.querySelectorAll("[data-own]")].map((l) => l.localName).join();
				if (e.el.isConnected && own !== ({ K: ["style", "link,style"], M: ["style", "link"] }[e.kind]?.[sources[e.kind].n % 2] ?? "")) return fail(`a component's own stylesheets are now [${own}]`, i), false;
				const n = sources[e.kind].n;
				const text = root.textContent.replace(/\s+/g, "");
				if (e.el.isConnected && text !== `${e.kind}${n}`) return fail(`a connected element shows ${text} instead of ${e.kind}${n}`, i), false;
			}
			ctx.state(els.map((e) => `${e.kind}${e.el.isConnected ? 1 : 0}${e.link ?? "-"}`).join("|") + JSON.stringify(current));
			return true;
		};
		for (let i = 0; i < t.ops.length; i++) {
			const op = t.ops[i];
			let force = false;
			let open = [];
			ctx.step();
			try {
				if (op.startsWith("load:")) {
					const k = op.slice(5);
					await loadIgniteConfig(() => Promise.resolve({ default: configFor(k) }));
					apply(k);
					force = !k.startsWith("none");
				} else if (op.startsWith("old:")) {
					await loadIgniteConfig(() => Promise.resolve({ globalStyles: STYLES[op.slice(4)].cfg }));
					apply(op.slice(4));
					force = true;
				} else if (op.startsWith("during:")) {
					const [, k, tick, ...rest] = op.split(":");
					const inner = rest.join(":");
					const load = loadIgniteConfig(() => Promise.resolve({ default: configFor(k) }));
					for (let n = 0; n < Number(tick); n++) await null;
					let second;
					const before = current;
					if (inner.startsWith("load:")) second = loadIgniteConfig(() => Promise.resolve(configFor(inner.slice(5))));
					else if (inner.startsWith("set:")) setGlobalStyles(STYLES[inner.slice(4)].cfg);
					else simple(inner);
					await load;
					await second;
					for (let n = 0; n < 10; n++) await null;
					const mine = STYLES[k.split("+")[0]].link;
					open = [before, mine].filter(Boolean);
					if (inner.startsWith("load:")) {
						// the second load's module arrived last
						current = STYLES[inner.slice(5)].link;
						force = true;
					} else if (inner.startsWith("set:")) {
						// set before or after the configuration took effect
						const set = STYLES[inner.slice(4)].link;
						open.push(set);
						force = k !== "none";
						// find out which one is in force by asking a new root
						const probe = realm.document.createElement(tags.J);
						const href = probe.shadowRoot.querySelector("link")?.getAttribute("href")?.trim();
						current = [set, mine].filter(Boolean).find((l) => l.href.trim() === href) ?? null;
						if (!current) return fail(`after overlapping changes a new root has ${href}`, i);
					} else {
						apply(k);
						force = k !== "none";
					}
				} else simple(op);
			} catch (e) {
				return fail(`${op} threw ${e?.stack ?? e}`, i);
			}
			const errors = realm.takeErrors();
			if (errors.length) return fail(`${op} caused ${errors[0]?.stack ?? errors[0]}`, i);
			if (!verify(i, force, open)) return;
		}
	},
};

function source() {
	const s = { n: 1, listeners: new Set() };
	s.adapter = () => ({
		scope: "shared",
		subscribe(l) {
			s.listeners.add(l);
			l({ n: s.n });
			return { unsubscribe: () => s.listeners.delete(l) };
		},
		getState: () => ({ n: s.n }),
		send() {},
		stop() {},
	});
	s.bump = () => {
		s.n++;
		for (const l of [...s.listeners]) l({ n: s.n });
	};
	return s;
}
