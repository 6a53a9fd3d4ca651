// The Vite plugin's answer for every project layout; the injected script is executed and its imports are
// resolved the way Vite does. Some layouts are also built with the installed Vite.
import fs from "node:fs";
import { createRequire } from "node:module";
import path from "node:path";
import { pathToFileURL } from "node:url";
import vm from "node:vm";
import { REPO } from "../lib/build.mjs";
import { product, subsets } from "../lib/enum.mjs";

const DEFAULTS = ["ignite.config.ts", "ignite.config.js", "ignite.config.mjs", "ignite.config.cjs"];
const ROOTS = ["proj", "my proj", ".hidden/p", "a/b/c", "..odd"];
// explicit path -> file it means, relative to the root ("abs:" given as an absolute path); missing ones do not exist
const EXPLICIT = {
	none: null,
	plain: "ignite.config.ts", dotted: "./cfg/my.ts", deep: "cfg/deep/x.mjs", hidden: ".config/ignite.config.ts", dotfile: ".igniterc.js", dots: "..conf/ignite.ts", up: "../outside/ignite.config.ts",
	space: "sp ace/c.ts", uni: "ünï/c.ts", quote: "q\"uo'te/c.ts", absIn: "abs:cfg/my.ts", absOut: "abs:../outside/ignite.config.ts", missing: "nope.ts", absMissing: "abs:nope/ignite.ts", roundabout: "cfg/../cfg/my.ts", upIn: "../@/cfg/my.ts",
};
const PRESENT = ["cfg/my.ts", "cfg/deep/x.mjs", ".config/ignite.config.ts", ".igniterc.js", "..conf/ignite.ts", "../outside/ignite.config.ts", "sp ace/c.ts", "ünï/c.ts", "q\"uo'te/c.ts", "sub/ignite.config.ts"];
const HOOKS = ["option", "option+resolved", "option+other", "resolved", "resolvedTwice", "early"];
const INJECT = ["~", "head", "head-prepend", "body", "body-prepend"];
const PAGES = ["~", "index.html", "sub/index.html", "sub/deep/p.html"];
const FORMS = ["abs", "slash", "relative"];

function* cases(tier) {
	const all = [...subsets(DEFAULTS)];
	for (const root of ROOTS)
		for (const present of all)
			for (const explicit of Object.keys(EXPLICIT)) {
				for (const c of product({ hooks: HOOKS, page: PAGES, form: tier === "thorough" ? FORMS : root === "proj" ? FORMS : ["abs"] })) yield { root, present, explicit, inject: "~", ...c };
				for (const inject of INJECT) yield { root, present, explicit, inject, hooks: "option", page: "~", form: "abs" };
			}
	for (const root of tier === "thorough" ? ROOTS : ["proj", "my proj"])
		for (const page of PAGES.slice(1))
			for (const explicit of ["none", "deep", "hidden", "up", "absOut", "missing", "space"])
				for (const present of [[], ["ignite.config.ts"], ["ignite.config.js", "ignite.config.mjs"]]) yield { vite: true, root, present, explicit, page, hooks: "resolved", inject: "~", form: "abs" };
}

export default {
	id: "C19",
	maxShards: 8,
	execArgv: ["--experimental-vm-modules", "--no-warnings"],
	bounds: (tier) => `all combinations of ${ROOTS.length} roots, 16 sets of present default files, ${Object.keys(EXPLICIT).length} explicit paths, ${HOOKS.length} hook orders, ${PAGES.length} pages and ${FORMS.length} ways to write the root (quick: one root), plus all injection positions; ${tier === "thorough" ? 315 : 126} layouts built with the installed Vite`,
	assumptions: ["import specifiers are resolved as Vite does: ./ and ../ against the page, /@fs/ as an absolute path, / against the root", "POSIX paths; '#', '?' and '%' in paths are outside the alphabet"],
	*cases(tier) {
		yield* cases(tier);
	},
	async init(ctx) {
		this.base = fs.realpathSync(fs.mkdtempSync(path.join(ctx.scratch, "c19-")));
		const module = { exports: {} };
		const src = fs.readFileSync(ctx.bundleFile, "utf8");
		new Function("require", "module", "exports", src)(createRequire(`${REPO}/package.json`), module, module.exports);
		this.plugin = module.exports.vite().igniteConfigVitePlugin;
		this.dirs = new Map();
	},
	layout(root, present) {
		const key = `${root}|${present}`;
		if (!this.dirs.has(key)) {
			const dir = path.join(this.base, String(this.dirs.size), root);
			const write = (f) => {
				const file = path.resolve(dir, f);
				fs.mkdirSync(path.dirname(file), { recursive: true });
				fs.writeFileSync(file, `export default { logging: ${JSON.stringify(`MARK ${file}`)} };\n`);
			};
			fs.mkdirSync(dir, { recursive: true });
			for (const f of [...PRESENT, ...present]) write(f);
			const helper = path.join(dir, "node_modules/ignite-element/dist/config/loadIgniteConfig.es.js");
			fs.mkdirSync(path.dirname(helper), { recursive: true });
			fs.writeFileSync(helper, "export async function loadIgniteConfig(load) { globalThis.__HELPER__ = 1; return load(); }\n");
			for (const p of PAGES.slice(1)) {
				fs.mkdirSync(path.dirname(path.join(dir, p)), { recursive: true });
				fs.writeFileSync(path.join(dir, p), "<!doctype html><html><head><title>t</title></head><body><p>x</p></body></html>");
			}
			this.dirs.set(key, dir);
		}
		return this.dirs.get(key);
	},
	async exec(ctx, t) {
		const dir = this.layout(t.root, t.present);
		const spec = EXPLICIT[t.explicit];
		let configPath;
		let chosen = null;
		if (spec) {
			const rel = spec.replace("abs:", "").replace("@", path.basename(dir));
			const file = path.resolve(dir, rel);
			configPath = spec.startsWith("abs:") ? file : rel;
			chosen = fs.existsSync(file) ? file : null;
		} else {
			const name = DEFAULTS.find((d) => t.present.includes(d));
			if (name) chosen = path.join(dir, name);
		}
		const options = {};
		if (configPath) options.configPath = configPath;
		if (t.inject !== "~") options.injectTo = t.inject;
		const rootText = t.form === "slash" ? `${dir}/` : t.form === "relative" ? path.relative(process.cwd(), dir) : dir;
		if (t.hooks.startsWith("option")) options.root = rootText;
		const other = this.layout("a/b/c", []);
		const log = console.warn;
		console.warn = () => {};
		try {
			if (t.vite) return await this.viteBuild(ctx, t, dir, chosen, options);
			const frozen = JSON.stringify(options);
			const plugin = this.plugin(options);
			const call = (hook, ...args) => (typeof hook === "function" ? hook : hook?.handler)?.call({}, ...args);
			const resolved = (r) => call(plugin.configResolved, { root: r });
			const page = t.page === "~" ? null : path.join(dir, t.page);
			const html = "<!doctype html><html><head></head><body></body></html>";
			const transform = () => (page ? call(plugin.transformIndexHtml, html, { path: `/${t.page}`, filename: page }) : call(plugin.transformIndexHtml));
			if (t.hooks === "option+resolved") resolved(dir);
			if (t.hooks === "option+other") resolved(other);
			if (t.hooks === "resolved") resolved(rootText);
			if (t.hooks === "resolvedTwice") {
				resolved(rootText);
				transform();
				resolved(rootText);
			}
			if (t.hooks === "early") {
				transform(); // before Vite told the root
				resolved(rootText);
			}
			const answers = [];
			for (let n = 0; n < 2; n++) {
				ctx.step();
				const r = await transform();
				const tags = r === undefined || r === null ? [] : Array.isArray(r) ? r : typeof r === "object" ? (r.tags ?? []) : null;
				if (tags === null) return ctx.fail(`the plugin returned ${JSON.stringify(r)}`);
				answers.push(tags);
			}
			if (JSON.stringify(options) !== frozen) return ctx.fail("the plugin changed its options");
			if (JSON.stringify(answers[0]) !== JSON.stringify(answers[1])) return ctx.fail("asking twice gives two answers");
			const tags = answers[0];
			if (!chosen) {
				if (tags.length) ctx.fail(`there is no config file but the plugin injects ${JSON.stringify(tags)}`);
				return;
			}
			if (tags.length !== 1 || tags[0].tag !== "script" || tags[0].attrs?.type !== "module") return ctx.fail(`expected one module script for ${chosen}, got ${JSON.stringify(tags)}`);
			if ((tags[0].injectTo ?? "head-prepend") !== (t.inject === "~" ? "head-prepend" : t.inject)) return ctx.fail(`injected into ${tags[0].injectTo} instead of ${t.inject}`);
			const events = await run(tags[0].children, ctx);
			const where = (s) => (s.startsWith("/@fs/") ? path.normalize(`/${s.slice(5)}`) : s.startsWith("./") || s.startsWith("../") ? path.resolve(page ? path.dirname(page) : dir, s) : s.startsWith("/") ? path.join(dir, s) : null);
			if (events.error) return ctx.fail(`the injected script does not work: ${events.error}\n ${tags[0].children}`);
			const [first, ...rest] = events.list;
			if (!first || !/ignite-element.*loadIgniteConfig/.test(first)) return ctx.fail(`the first import is ${first}`);
			if (first.startsWith("/") && where(first) !== path.join(dir, "node_modules/ignite-element/dist/config/loadIgniteConfig.es.js")) return ctx.fail(`the helper is imported from ${first}`);
			if (rest.length !== 2 || rest[0] !== "call" || where(rest[1]) !== chosen) return ctx.fail(`the script does ${JSON.stringify(events.list)}; it has to load ${chosen} (root ${dir}, page ${page})`, { sig: undefined });
			ctx.state(`${t.explicit}|${rest[1].startsWith("/@fs/")}|${t.inject}|${path.basename(chosen)}`);
		} catch (e) {
			ctx.fail(`threw ${e?.stack ?? e}`);
		} finally {
			console.warn = log;
		}
	},
	async viteBuild(ctx, t, dir, chosen, options) {
		this.vite ??= await import(pathToFileURL(path.join(REPO, "node_modules/vite/dist/node/index.js")).href);
		ctx.count("vite_builds");
		let result;
		try {
			result = await this.vite.build({ root: dir, configFile: false, logLevel: "silent", plugins: [this.plugin(options)], build: { write: false, target: "esnext", rollupOptions: { input: path.join(dir, t.page) } } });
		} catch (e) {
			return ctx.fail(`vite build fails for config ${chosen} on page ${t.page}: ${e?.message ?? e}`);
		}
		ctx.step();
		const out = (Array.isArray(result) ? result : [result]).flatMap((r) => r.output);
		const text = out.map((o) => o.code ?? String(o.source ?? "")).join("\n");
		const html = out.filter((o) => o.fileName.endsWith(".html")).map((o) => String(o.source)).join("");
		const marks = [...new Set([...text.matchAll(/MARK ([^"'`\n]*ignite[^"'`\n]*|MARK [^"'`\n]*)["'`]/g)].map((m) => m[1]))];
		const loaded = chosen && text.includes(`MARK ${chosen}`);
		if (chosen && !loaded) return ctx.fail(`the built page ${t.page} does not load ${chosen}`);
		if (chosen && !text.includes("__HELPER__")) return ctx.fail(`the built page ${t.page} does not load the configuration helper`);
		if (chosen && !/<script/.test(html)) return ctx.fail(`the built page ${t.page} has no script`);
		if (!chosen && (/MARK /.test(text) || /loadIgniteConfig/.test(text))) return ctx.fail(`without a config file the built page ${t.page} loads one (${marks})`);
		ctx.state(`vite|${t.explicit}|${t.page}|${Boolean(chosen)}`);
	},
};

const cache = new Map();
async function run(code, ctx) {
	if (cache.has(code)) return cache.get(code);
	ctx.count("scripts_executed");
	const list = [];
	const result = { list, error: null };
	const make = async (specifier) => {
		list.push(specifier);
		const helper = /loadIgniteConfig/.test(specifier);
		const m = new vm.SyntheticModule(helper ? ["loadIgniteConfig"] : ["default"], function () {
			if (helper)
				this.setExport("loadIgniteConfig", async (load) => {
					list.push("call");
					return load();
				});
			else this.setExport("default", {});
		});
		await m.link(() => {});
		await m.evaluate();
		return m;
	};
	try {
		const m = new vm.SourceTextModule(code, { importModuleDynamically: make });
		await m.link(make);
		await m.evaluate();
	} catch (e) {
		result.error = e?.message ?? String(e);
	}
	if (cache.size > 5000) cache.clear();
	cache.set(code, result);
	return result;
}
