// compiler.options.entry after applying the webpack plugin, for every entry shape and config layout.
import fs from "node:fs";
import { createRequire } from "node:module";
import path from "node:path";
import vm from "node:vm";
import { REPO } from "../lib/build.mjs";
import { sequences, subsets } from "../lib/enum.mjs";

const DEFAULTS = ["ignite.config.ts", "ignite.config.js", "ignite.config.mjs", "ignite.config.cjs"];
const DIRS = ["proj", "my proj", ".hid", "q\"uo'te", "ünï\u2028x", "per%cent%41", "back\\slash", "tick`${x}`", "new\nline", "a#b?c", "plus+amp&eq=;,"];
const EXPLICIT = { none: null, rel: "cfg/c.ts", dot: "./cfg/c.ts", up: "../out/o.ts", abs: "abs:cfg/c.ts", missing: "no.ts" };
const UNNAMED = ["./a.js", ["./a.js"], ["./a.js", "./b.js"], ["./b.js", "./a.js", "./b.js"], ["data:text/javascript,globalThis.own%20=%201", "./a.js"]];
const VALUES = [...UNNAMED, { import: "./a.js" }, { import: ["./a.js", "./b.js"], filename: "f.js" }, { import: "./d.js", dependOn: "shared", runtime: "r", library: { name: "L", type: "var" } }, { import: ["./e.js"], asyncChunks: false }, { import: ["./f.js"], filename: "", layer: null, runtime: false, dependOn: [], publicPath: "" }, { import: "./g.js", layer: "l", baseUri: "/b" }, {}];
const NAMES = ["main", "shared", "z-last", "import", "1"];

function* entries(tier) {
	yield { undef: true };
	for (const e of UNNAMED) yield e;
	const maps = [{}];
	for (const n of NAMES) for (const v of VALUES) maps.push({ [n]: v });
	for (const [a, b] of sequences(VALUES, 2)) maps.push({ main: a, shared: b }, { "z-last": a, main: b });
	for (const [a, b, c] of sequences(tier === "thorough" ? VALUES : VALUES.slice(0, 6), 3)) maps.push({ main: a, admin: b, shared: c });
	for (const m of maps) yield m;
	for (const e of [...UNNAMED, ...maps.slice(0, tier === "thorough" ? undefined : 130)]) {
		yield { fn: "sync", value: e };
		yield { fn: "async", value: e };
		yield { fn: "promise", value: e };
	}
	yield { fn: "reject" };
	yield { fn: "throw" };
}

function* cases(tier) {
	const all = [...subsets(DEFAULTS)];
	for (const entry of entries(tier)) for (const times of [1, 2, 3]) for (const frozen of [false, true]) yield { dir: "proj", present: ["ignite.config.js"], explicit: "none", entry, times, frozen };
	const few = [{ undef: true }, "./a.js", ["./a.js", "./b.js"], { main: { import: "./a.js" }, x: "./x.js" }, { fn: "async", value: { main: ["./a.js"] } }];
	for (const dir of DIRS) for (const present of all) for (const explicit of Object.keys(EXPLICIT)) for (const entry of few) for (const times of [1, 2]) yield { dir, present, explicit, entry, times, frozen: true };
}

const isFn = (e) => e && typeof e === "object" && "fn" in e;
function deepFreeze(v) {
	if (v && typeof v === "object") {
		Object.freeze(v);
		for (const k of Object.keys(v)) deepFreeze(v[k]);
	}
	return v;
}

export default {
	id: "C20",
	execArgv: ["--experimental-vm-modules", "--no-warnings"],
	bounds: (tier) => `${[...entries(tier)].length} entry shapes (strings, lists, maps of up to 3 names over ${VALUES.length} values, functions, promises, failing functions), applied 1-3 times, plain and frozen; ${DIRS.length} directory names with special characters x 16 sets of default files x ${Object.keys(EXPLICIT).length} explicit paths`,
	assumptions: ["webpack is not installed: the entry is what webpack hands to plugins and takes back, before or after its own normalisation", "the loader module is decoded and executed as a data: module"],
	*cases(tier) {
		yield* cases(tier);
	},
	async init(ctx) {
		this.base = fs.mkdtempSync(path.join(ctx.scratch, "c20-"));
		const module = { exports: {} };
		new Function("require", "module", "exports", fs.readFileSync(ctx.bundleFile, "utf8"))(createRequire(`${REPO}/package.json`), module, module.exports);
		this.Plugin = module.exports.webpack().IgniteConfigWebpackPlugin;
		this.dirs = new Map();
		this.loaders = new Map();
	},
	layout(name, present) {
		const key = `${name}|${present}`;
		if (!this.dirs.has(key)) {
			const dir = path.join(this.base, String(this.dirs.size), name);
			for (const f of ["cfg/c.ts", "../out/o.ts", ...present]) {
				const file = path.resolve(dir, f);
				fs.mkdirSync(path.dirname(file), { recursive: true });
				fs.writeFileSync(file, "export default {}\n");
			}
			this.dirs.set(key, dir);
		}
		return this.dirs.get(key);
	},
	async exec(ctx, t) {
		const dir = this.layout(t.dir, t.present);
		const spec = EXPLICIT[t.explicit];
		let configPath;
		let chosen = null;
		if (spec) {
			const file = path.resolve(dir, spec.replace("abs:", ""));
			configPath = spec.startsWith("abs:") ? file : spec;
			chosen = fs.existsSync(file) ? file : null;
		} else {
			const name = DEFAULTS.find((d) => t.present.includes(d));
			if (name) chosen = path.join(dir, name);
		}
		const failure = new Error("entry function failed");
		const value = isFn(t.entry) ? (t.entry.value === undefined ? undefined : structuredClone(t.entry.value)) : t.entry.undef ? undefined : structuredClone(t.entry);
		const before = JSON.stringify(value);
		if (t.frozen) deepFreeze(value);
		let calls = 0;
		const given = isFn(t.entry)
			? {
					sync: () => (calls++, value),
					async: async () => (calls++, await null, value),
					promise: () => (calls++, new Promise((r) => setImmediate(r, value))),
					reject: () => Promise.reject(failure),
					throw: () => {
						throw failure;
					},
				}[t.entry.fn]
			: value;
		const other = { mode: "production", plugins: [1] };
		const compiler = { context: dir, options: { entry: given, ...other } };
		try {
			for (let n = 0; n < t.times; n++) {
				const plugin = t.times === 3 && n === 1 ? this.last : new this.Plugin(configPath ? { configPath } : t.frozen ? {} : undefined);
				this.last = plugin;
				plugin.apply(compiler);
				ctx.step();
			}
			if (JSON.stringify(value) !== before) return ctx.fail("the user's entry was modified");
			if (compiler.context !== dir || compiler.options.mode !== "production" || compiler.options.plugins !== other.plugins) return ctx.fail("other compiler options were changed");
			if (!chosen) {
				if (compiler.options.entry !== given) ctx.fail("without a config file the entry was changed");
				return;
			}
			let result = compiler.options.entry;
			if (isFn(t.entry)) {
				if (typeof result !== "function") return ctx.fail("a function entry is no longer a function");
				if (t.entry.fn === "reject" || t.entry.fn === "throw") {
					try {
						await result();
						return ctx.fail("the failure of an entry function was lost");
					} catch (e) {
						if (e !== failure) return ctx.fail(`an entry function's failure became ${e}`);
						return;
					}
				}
				if (calls) return ctx.fail("the entry function was called while applying the plugin");
				const first = await result();
				const second = await result();
				if (JSON.stringify(first) !== JSON.stringify(second)) return ctx.fail("the entry function gives different entries");
				if (calls !== 2) return ctx.fail(`the entry function was called ${calls} times for 2 evaluations`);
				result = second;
			}
			const want = value === undefined ? { main: { import: "./src" } } : value;
			const listOf = (v) => (v === undefined ? ["./src"] : Array.isArray(v) ? v : [v]);
			const checkList = async (got, wanted, where) => {
				const list = Array.isArray(got) ? got : [got];
				if (JSON.stringify(list.slice(1)) !== JSON.stringify(listOf(wanted))) return `${where}: ${JSON.stringify(got)} instead of the loader followed by ${JSON.stringify(listOf(wanted))}`;
				const loads = await this.run(String(list[0]), ctx);
				if (loads.error) return `${where}: the loader module does not work: ${loads.error}`;
				if (!/^ignite-element\/config\/loadIgniteConfig$/.test(loads.list[0]) || loads.list[1] !== "call" || loads.list.length !== 3) return `${where}: the loader does ${JSON.stringify(loads.list)}`;
				if (loads.list[2] !== chosen) return `${where}: the loader loads ${JSON.stringify(loads.list[2])} instead of ${JSON.stringify(chosen)}`;
				return null;
			};
			let problem = null;
			if (typeof want === "string" || Array.isArray(want)) {
				// may be given back as a list or in its named form
				const named = result && typeof result === "object" && !Array.isArray(result);
				problem = await checkList(named ? (result.main?.import ?? result.main) : result, want, "entry");
			} else {
				if (!result || typeof result !== "object" || Array.isArray(result) || JSON.stringify(Object.keys(result)) !== JSON.stringify(Object.keys(want))) problem = `names ${result && Object.keys(result)} instead of ${Object.keys(want)}`;
				else
					for (const [name, v] of Object.entries(want)) {
						const got = result[name];
						const descriptor = v && typeof v === "object" && !Array.isArray(v);
						const gotDescriptor = got && typeof got === "object" && !Array.isArray(got);
						problem = await checkList(gotDescriptor ? got.import : got, descriptor ? v.import : v, `entry ${name}`);
						if (!problem && descriptor) {
							if (!gotDescriptor) problem = `entry ${name} lost its options`;
							else {
								const { import: _a, ...rest } = v;
								const { import: _b, ...restGot } = got;
								if (JSON.stringify(rest) !== JSON.stringify(restGot)) problem = `entry ${name} has options ${JSON.stringify(restGot)} instead of ${JSON.stringify(rest)}`;
							}
						}
						if (problem) break;
					}
			}
			ctx.state(JSON.stringify([before, t.times, t.explicit]));
			if (problem) ctx.fail(`after applying ${t.times} time(s), ${problem}`);
		} catch (e) {
			ctx.fail(`threw ${e?.stack ?? e}`);
		}
	},
	async run(id, ctx) {
		if (this.loaders.has(id)) return this.loaders.get(id);
		ctx.count("loader_modules_executed");
		const list = [];
		const result = { list, error: null };
		const make = async (specifier) => {
			list.push(specifier);
			const helper = /loadIgniteConfig$/.test(specifier);
			const m = new vm.SyntheticModule(helper ? ["loadIgniteConfig"] : ["default"], function () {
				if (helper)
					this.setExport("loadIgniteConfig", async (load) => {
						list.push("call");
						return load();
					});
				else this.setExport("default", {});
			});
			await m.link(() => {});
			await m.evaluate();
			return m;
		};
		try {
			// as webpack's data: scheme does
			const match = /^data:([^;,]+)?((?:;[^;,]+)*?)(?:;(base64))?,([\s\S]*)$/i.exec(id);
			if (!match) throw new Error(`not a data: module: ${id.slice(0, 60)}`);
			const code = match[3] ? Buffer.from(match[4], "base64").toString("utf8") : decodeURIComponent(match[4]);
			const m = new vm.SourceTextModule(code, { importModuleDynamically: make });
			await m.link(make);
			await m.evaluate();
		} catch (e) {
			result.error = e?.message ?? String(e);
		}
		this.loaders.set(id, result);
		return result;
	},
};
