const view = (body) => `import { assert, equal, dom, viewer } from "./kit.mjs";
const window = dom();
const { make, h, m } = await viewer(window);
${body}
process.exit(0);`;
const page = (names, libs, body) => `import { assert, equal, dom, load, dir } from "./kit.mjs";
const window = dom();
const { ${[...names, ...libs.map((l) => `${l.replace(/\W/g, "_")}`)].join(", ")} } = await load(${JSON.stringify(names)}, { libs: ${JSON.stringify(libs)} });
const doc = window.document;
const put = (tag) => { const e = doc.createElement(tag); doc.body.append(e); return e; };
const text = (e) => e.shadowRoot.textContent;
${body}
process.exit(0);`;
const RTK = "@reduxjs/toolkit";
const STORE = `const store = _reduxjs_toolkit.configureStore({ reducer: (s = { n: 0 }, a) => (a.type === "inc" ? { n: s.n + 1 } : s) });`;
const SLICE = `const slice = _reduxjs_toolkit.createSlice({ name: "s", initialState: { n: 0 }, reducers: { inc: (s) => { s.n++; } } });`;
const MACHINE = `const machine = xstate.createMachine({ context: { n: 0 }, on: { inc: { actions: xstate.assign({ n: ({ context }) => context.n + 1 }) } } });`;
const R = "src/renderers/jsx/renderer.ts";
const S = "src/renderers/jsx/IgniteJsxRenderStrategy.ts";
const F = "src/IgniteElementFactory.ts";
const C = "src/createComponentFactory.ts";
const release = (body) => `import { assert, equal, dir } from "./kit.mjs";
import fs from "node:fs"; import path from "node:path"; import { spawnSync } from "node:child_process";
const bin = path.join(dir, "bin"); fs.mkdirSync(bin); const log = path.join(dir, "log");
for (const c of ["git", "npm", "pnpm"]) fs.writeFileSync(path.join(bin, c), \`#!/bin/sh
echo "${"$"}{NPM_CONFIG_OTP:-none} \${c} $*" >> \${log}
case "\${c} $*" in "$FAIL") exit 1;; esac
[ "\${c} $1" = "npm whoami" ] && echo me
exit 0
\`, { mode: 0o755 });
function run(args, env = {}, input = "") {
	fs.writeFileSync(log, "");
	const r = spawnSync(process.execPath, ["scripts/release-beta.mjs", ...args], { encoding: "utf8", input, env: { PATH: bin + ":/usr/bin:/bin", ...env } });
	return { rc: r.status, out: r.stdout + r.stderr, calls: fs.readFileSync(log, "utf8").trim().split("\\n") };
}
${body}
process.exit(0);`;
const token = (body) => `import { assert, equal, dir } from "./kit.mjs";
import fs from "node:fs"; import path from "node:path"; import { pathToFileURL } from "node:url";
fs.writeFileSync(path.join(dir, "npm"), "#!/bin/sh\\necho tok-123\\n", { mode: 0o755 });
process.env.PATH = dir + ":" + process.env.PATH;
process.env.GITHUB_TOKEN = "gh-456"; process.env.REPO_NAME = "o/r";
const out = []; for (const k of ["log", "info", "warn", "error", "debug"]) console[k] = (...a) => out.push(a.map((x) => x?.stack ?? x?.message ?? (typeof x === "object" ? JSON.stringify(x) : String(x))).join(" "));
const fail = (m) => { process.stderr.write("FAIL: " + m + "\\n"); process.exit(1); };
const { default: refresh } = await import(pathToFileURL(path.resolve("scripts/refresh-npm-token.js")).href);
const calls = [];
${body}
process.exit(0);`;
export default [
	{
		id: "c17-renderer-not-awaited", property: "C17",
		needs: "a configuration naming a renderer that has to be loaded, and a component registered right after the load reported success",
		breaks: "the load reports success before the renderer is available, so the component falls back",
		edits: [{ file: "src/config/loadIgniteConfig.ts", from: `	if (loader) {
		await loader();
	}`, to: `	if (loader) {
		loader().catch(() => undefined);
	}` }],
		demo: `import { equal, dom, load } from "./kit.mjs";
const window = dom();
const { ig, core } = await load(["ig", "core"]);
let warned = 0; console.warn = () => warned++;
await ig.loadIgniteConfig(async () => ({ renderer: "lit" }));
core.igniteCore();
equal(warned, 0, "warnings about a missing renderer");
process.exit(0);`,
	},
	{
		id: "c17-default-null", property: "C17",
		needs: "a configuration module whose default export is missing a value while it has other exports",
		breaks: "the module object itself is applied as the configuration",
		edits: [{ file: "src/config/loadIgniteConfig.ts", from: `	if (isConfigWrapper(module)) {
		const candidate = module.default;
		return candidate && typeof candidate === "object" ? candidate : undefined;
	}

	if (isIgniteConfigValue(module)) {
		return module;
	}`, to: `	if (isConfigWrapper(module)) {
		const candidate = module.default;
		if (candidate && typeof candidate === "object") {
			return candidate;
		}
		const { default: _missing, ...named } = module;
		return Object.keys(named).length > 0 ? (named as IgniteConfig) : undefined;
	}

	if (isIgniteConfigValue(module)) {
		return module;
	}` }],
		demo: page(["ig"], [], `ig.defineIgniteConfig({ strategy: "replace" });
const r = await ig.loadIgniteConfig(async () => ({ default: undefined, logging: "warn", styles: "/x.css" }));
equal([r ?? null, ig.getIgniteConfig()], [null, { strategy: "replace" }], "result and configuration in force");`),
	},
	{
		id: "c18-lazy-strategy", property: "C18",
		needs: "a configuration that changes the renderer after a component was created and before its first element",
		breaks: "the component switches to the newly configured renderer",
		edits: [{ file: F, from: `	const renderStrategyFactory: RenderStrategyFactory<View> =
		options?.createRenderStrategy ??
		(resolveConfiguredRenderStrategy() as RenderStrategyFactory<View>);`, to: `	let resolved: RenderStrategyFactory<View> | undefined;
	if (!options?.createRenderStrategy) {
		resolveConfiguredRenderStrategy();
	}
	const renderStrategyFactory: RenderStrategyFactory<View> = () => {
		resolved ??=
			options?.createRenderStrategy ??
			(resolveConfiguredRenderStrategy() as RenderStrategyFactory<View>);
		return resolved();
	};` }],
		demo: page(["ig", "core", "lit", "jsx"], ["lit-html"], `ig.defineIgniteConfig({ renderer: "ignite-jsx" });
core.igniteCore()("x-a", () => jsx.jsx("p", { children: "hi" }));
ig.defineIgniteConfig({ renderer: "lit" });
const e = put("x-a");
assert(e.shadowRoot.querySelector("p"), "the component no longer uses the JSX renderer");`),
	},
	{
		id: "c18-first-registration-wins", property: "C18",
		needs: "a configured renderer that is not available while several others are, registered in an unusual order",
		breaks: "the fallback is whatever was registered first instead of the built-in JSX renderer",
		edits: [{ file: "src/renderers/resolveConfiguredRenderStrategy.ts", from: `registry.get("ignite-jsx") ?? registry.values().next().value;`, to: `registry.values().next().value ?? registry.get("ignite-jsx");` }],
		demo: page(["ig", "core", "jsx"], [], `const reg = globalThis[Symbol.for("ignite-element.renderStrategyRegistry")];
const own = reg.get("ignite-jsx");
reg.clear();
reg.set("mine", () => ({ attach() {}, render() {} })); reg.set("ignite-jsx", own);
console.warn = () => {};
ig.defineIgniteConfig({ renderer: "lit" });
core.igniteCore()("x-a", () => jsx.jsx("p", { children: "hi" }));
equal(text(put("x-a")), "hi", "shown");`),
	},
	{
		id: "c19-explicit-path-fallback", property: "C19",
		needs: "an explicit configuration path that does not exist, next to a default file",
		breaks: "the default file is loaded although another one was asked for",
		edits: [{ file: "src/plugins/configFile.ts", from: `		return existsSync(candidate) ? candidate : undefined;`, to: `		if (existsSync(candidate)) {
			return candidate;
		}
		if (isAbsolute(configPath)) {
			return undefined;
		}` }],
		also: ["C20"],
		demo: `import { equal, load, dir } from "./kit.mjs";
import fs from "node:fs"; import path from "node:path";
const { vite } = await load(["vite"], { conditions: ["node", "import"] });
fs.writeFileSync(path.join(dir, "ignite.config.mjs"), "export default {}");
console.warn = () => {};
const p = Object.values(vite).find((f) => typeof f === "function")({ configPath: "conf/other.ts" });
p.configResolved({ root: dir });
const t = p.transformIndexHtml;
equal((typeof t === "function" ? t : t.handler)("<html></html>") ?? null, null, "injected");
process.exit(0);`,
	},
	{
		id: "c19-default-order", property: "C19",
		needs: "a project with both ignite.config.js and ignite.config.mjs",
		breaks: "the second of the documented names is preferred",
		edits: [{ file: "src/plugins/configFile.ts", from: `	"ignite.config.js",
	"ignite.config.mjs",`, to: `	"ignite.config.mjs",
	"ignite.config.js",` }],
		also: ["C20"],
		demo: `import { assert, load, dir } from "./kit.mjs";
import fs from "node:fs"; import path from "node:path";
const { vite } = await load(["vite"], { conditions: ["node", "import"] });
for (const f of ["ignite.config.js", "ignite.config.mjs"]) fs.writeFileSync(path.join(dir, f), "export default {}");
const p = Object.values(vite).find((f) => typeof f === "function")();
p.configResolved({ root: dir });
const t = p.transformIndexHtml;
const tags = (typeof t === "function" ? t : t.handler)("<html></html>");
assert(tags[0].children.includes("ignite.config.js\\"") , tags[0].children);
process.exit(0);`,
	},
	{
		id: "c19-relative-prefix", property: "C19",
		needs: "a configuration file in a sibling directory of the root",
		breaks: "the import path climbs out of the root with ../, which the browser cannot resolve",
		edits: [{ file: "src/plugins/viteIgniteConfigPlugin.ts", from: `		if (relativePath && !relativePath.startsWith("..")) {
			return \`./\${toPosixPath(relativePath)}\`;
		}`, to: `		if (relativePath && !relativePath.startsWith("../..")) {
			return \`./\${toPosixPath(relativePath)}\`;
		}` }],
		demo: `import { assert, load, dir } from "./kit.mjs";
import fs from "node:fs"; import path from "node:path";
const { vite } = await load(["vite"], { conditions: ["node", "import"] });
const root = path.join(dir, "app"); fs.mkdirSync(root); fs.mkdirSync(path.join(dir, "shared"));
const cfg = path.join(dir, "shared", "ignite.config.ts"); fs.writeFileSync(cfg, "export default {}");
const p = Object.values(vite).find((f) => typeof f === "function")({ configPath: "../shared/ignite.config.ts" });
p.configResolved({ root });
const t = p.transformIndexHtml;
const tags = (typeof t === "function" ? t : t.handler)("<html></html>");
assert(!/import\\("[^"]*\\.\\./.test(tags[0].children), tags[0].children);
process.exit(0);`,
	},
	{
		id: "c20-apply-twice", property: "C20",
		needs: "the plugin applied twice to a named entry with a list of modules",
		breaks: "the loader is added a second time",
		edits: [{ file: "src/plugins/webpackIgniteConfigPlugin.ts", from: `	if (existing.includes(moduleId)) {
		return existing;
	}`, to: `	if (existing.length === 1 && existing[0] === moduleId) {
		return existing;
	}` }],
		demo: `import { equal, load, dir } from "./kit.mjs";
import fs from "node:fs"; import path from "node:path";
const { webpack } = await load(["webpack"], { conditions: ["node", "import"] });
fs.writeFileSync(path.join(dir, "ignite.config.js"), "");
const P = Object.values(webpack).find((f) => typeof f === "function");
const c = { context: dir, options: { entry: { a: ["./a.js", "./b.js"] } } };
new P().apply(c); new P().apply(c);
const list = c.options.entry.a.import ?? c.options.entry.a;
equal(list.length, 3, "modules of the entry");
process.exit(0);`,
	},
	{
		id: "c20-entry-mutated", property: "C20",
		needs: "one entry descriptor object shared by two compilers (or two entries)",
		breaks: "the user's own descriptor object is modified",
		edits: [{ file: "src/plugins/webpackIgniteConfigPlugin.ts", from: `		return {
			...entry,
			import: normalizeToArray(`, to: `		return Object.assign(entry, {
			import: normalizeToArray(` }, { file: "src/plugins/webpackIgniteConfigPlugin.ts", from: `?? DEFAULT_IMPORT, moduleId),
		};`, to: `?? DEFAULT_IMPORT, moduleId),
		});` }],
		demo: `import { equal, load, dir } from "./kit.mjs";
import fs from "node:fs"; import path from "node:path";
const { webpack } = await load(["webpack"], { conditions: ["node", "import"] });
fs.writeFileSync(path.join(dir, "ignite.config.js"), "");
const P = Object.values(webpack).find((f) => typeof f === "function");
const entry = { a: { import: "./a.js", filename: "x.js" } };
new P().apply({ context: dir, options: { entry } });
equal(entry, { a: { import: "./a.js", filename: "x.js" } }, "the user's entry");
process.exit(0);`,
	},
	{
		id: "c21-partial-dom", property: "C21",
		needs: "a runtime that has an element base class but no document (a worker-like DOM shim)",
		breaks: "the existing HTMLElement is replaced by the stub",
		edits: [{ file: "src/internal/setupDomPolyfill.ts", from: `if (typeof host.HTMLElement === "undefined") {`, to: `if (typeof host.HTMLElement === "undefined" || typeof document === "undefined") {` }],
		demo: `import { assert, load } from "./kit.mjs";
class Base {}
globalThis.HTMLElement = Base;
await load(["ig"]);
assert(globalThis.HTMLElement === Base, "HTMLElement was replaced");
process.exit(0);`,
	},
	{
		id: "c21-registry-replaced", property: "C21",
		needs: "a runtime with a registry but without the element base class",
		breaks: "the existing element registry is replaced",
		edits: [{ file: "src/internal/setupDomPolyfill.ts", from: `if (typeof host.HTMLElement === "undefined") {`, to: `const hasElements = typeof host.HTMLElement !== "undefined";

if (!hasElements) {` }, { file: "src/internal/setupDomPolyfill.ts", from: `if (typeof host.customElements === "undefined") {`, to: `if (!hasElements || typeof host.customElements === "undefined") {` }],
		demo: `import { assert, load } from "./kit.mjs";
const reg = { define() {}, get() {} };
globalThis.customElements = reg;
await load(["ig"]);
assert(globalThis.customElements === reg, "the registry was replaced");
process.exit(0);`,
	},
	{
		id: "c22-inherited-render", property: "C22",
		needs: "a renderer class that inherits its render method",
		breaks: "the class is taken for a render function, so elements fail",
		edits: [{ file: F, from: `				typeof renderer.prototype.render === "function"
			) {`, to: `				Object.hasOwn(renderer.prototype, "render")
			) {` }],
		demo: page(["core", "jsx"], [], `class A { render() { return jsx.jsx("p", { children: "hi" }); } }
class B extends A {}
core.igniteCore()("x-a", B);
equal(text(put("x-a")), "hi", "shown");`),
	},
	{
		id: "c22-unbound-object", property: "C22",
		needs: "a renderer object whose render method is replaced after registration or uses its receiver",
		breaks: "the render method loses its receiver",
		edits: [{ file: F, from: `		const bound = renderer.render.bind(renderer);
		return (args) => bound(args);`, to: `		const { render } = renderer;
		return (args) => render(args);` }],
		demo: page(["core", "jsx"], [], `core.igniteCore()("x-a", { word: "hi", render() { return jsx.jsx("p", { children: this?.word }); } });
equal(text(put("x-a")), "hi", "shown");`),
	},
	{
		id: "c23-status-ignored", property: "C23",
		needs: "a changeset status that fails",
		breaks: "the release goes on and publishes although a gate failed",
		edits: [{ file: "scripts/release-beta.mjs", from: `			onError(error);
		}
		throw error;`, to: `			onError(error);
			return;
		}
		throw error;` }],
		demo: release(`const r = run(["--skip-otp"], { FAIL: "pnpm changeset status" });
assert(r.rc !== 0 && !r.calls.some((c) => c.includes("publish")), "went on after a failed gate: " + r.calls);`),
	},
	{
		id: "c23-otp-precedence", property: "C23",
		needs: "a one-time password both as option and in the environment",
		breaks: "the environment's password wins over the one given as option",
		edits: [{ file: "scripts/release-beta.mjs", from: `	if (otp) {
		return otp;
	}

	if (env.NPM_CONFIG_OTP) {
		return env.NPM_CONFIG_OTP;
	}`, to: `	const given = env.NPM_CONFIG_OTP ?? otp;
	if (given) {
		return given;
	}` }],
		demo: release(`const r = run(["--otp=111"], { NPM_CONFIG_OTP: "222" });
assert(r.calls.some((c) => c.startsWith("111") && c.includes("publish")), r.calls.join());`),
	},
	{
		id: "c23-otp-everywhere", property: "C23",
		needs: "a one-time password given as option",
		breaks: "the password is put into the environment of every step, not only of the publish step",
		edits: [{ file: "scripts/release-beta.mjs", from: `const run = (command, options = {}) => {`, to: `if (otp && !skipOtp) {
	env.NPM_CONFIG_OTP = otp;
}

const run = (command, options = {}) => {` }, { file: "scripts/release-beta.mjs", from: `	if (otp) {
		return otp;
	}

	if (env`, to: `	if (env` }],
		demo: release(`const r = run(["--otp=111"]);
equal(r.calls.filter((c) => c.startsWith("111")).length, 1, "steps that saw the password");`),
	},
	{
		id: "c24-client-errors", property: "C24",
		needs: "GitHub refusing the update with a redirect-like or conflict status",
		breaks: "a refused update is reported as success",
		edits: [{ file: "scripts/refresh-npm-token.js", from: `		if (!response.ok) {`, to: `		if (!response.ok && response.status !== 409) {` }],
		demo: token(`globalThis.fetch = async () => ({ ok: false, status: 409, statusText: "Conflict" });
let err; try { await refresh(); } catch (e) { err = e; }
if (!err) fail("a refused update was reported as success");`),
	},
	{
		id: "c24-env-after-send", property: "C24",
		needs: "a missing repository name",
		breaks: "the token is sent to GitHub although the environment is incomplete",
		edits: [{ file: "scripts/refresh-npm-token.js", from: `		if (!githubToken || !repo) {`, to: `		if (!githubToken && !repo) {` }],
		demo: token(`delete process.env.REPO_NAME;
globalThis.fetch = async (...a) => { calls.push(a); return { ok: true, status: 204, statusText: "" }; };
try { await refresh(); } catch {}
if (calls.length) fail("something was sent");`),
	},
	{
		id: "c05-nested-unreported", property: "C05",
		needs: "a rebuild of a child list below the top level, with logging on",
		breaks: "the nested rebuild is not reported",
		edits: [{ file: R, from: `		const patched = patchNode(
			domChild,
			oldChildren[childIndex],
			newChildren[childIndex],
			onFallbackReplace,
		);`, to: `		const patched = patchNode(
			domChild,
			oldChildren[childIndex],
			newChildren[childIndex],
			parent.parentNode ? onFallbackReplace : undefined,
		);` }, { file: R, from: `		!patchChildren(
			elementNode,
			oldNode.children,
			mappedChildren,
			onFallbackReplace,
		)`, to: `		!patchChildren(
			elementNode,
			oldNode.children,
			mappedChildren,
			elementNode.childElementCount > 0 ? onFallbackReplace : undefined,
		)` }],
		demo: view(`m.ig.defineIgniteConfig({ logging: "warn" });
let n = 0; console.warn = () => n++;
const a = make();
a.show(h("div", {}, h("p", {}, "a", "b"))); a.show(h("div", {}, h("p", {}, "b", "a")));
equal(n, 1, "reports");`),
	},
	{
		id: "c04-acronym-event", property: "C04",
		needs: "an on-prop with an acronym in its name",
		breaks: "it listens to another event name than the corresponding hyphenated one",
		edits: [{ file: R, from: `		.replace(/([A-Z])([A-Z][a-z])/g, "$1-$2")
`, to: `` }],
		demo: view(`const a = make(); let n = 0;
a.show(h("p", { onURLChange: () => n++ }));
a.content().firstChild.dispatchEvent(new window.Event("url-change"));
equal(n, 1, "calls");`),
	},
	{
		id: "c13-derived-replaces-state", property: "C13",
		needs: "a states callback that declares a key named state",
		breaks: "the derived value replaces the state handed to the renderer",
		edits: [{ file: F, from: `				protected renderView(): View {
					return render({
						...this.additionalArgs,
						state: this.currentState,
						send: (event) => this.send(event),
					} as RenderArgs);`, to: `				protected renderView(): View {
					return render({
						state: this.currentState,
						send: (event: Event) => this.send(event),
						...this.additionalArgs,
					} as unknown as RenderArgs);` }],
		demo: page(["rx"], [RTK], `${STORE}
rx.igniteCore({ source: store, states: () => ({ state: "derived" }) })("x-a", ({ state }) => String(state.n));
equal(text(put("x-a")), "0", "shown");`),
	},
	{
		id: "c13-args-not-renewed", property: "C13",
		needs: "a shared MobX or custom source released and used again by a new element, then changed",
		breaks: "commands and derived values of a re-inserted element still belong to the released adapter",
		edits: [{ file: F, from: `		sharedAdapter = null;
		sharedAdditionalArgs = new WeakMap();
		sharedInstanceCount = 0;`, to: `		sharedAdapter = null;
		sharedInstanceCount = 0;` }, { file: F, from: `	let sharedAdditionalArgs = new WeakMap<`, to: `	const sharedAdditionalArgs = new WeakMap<` }],
		demo: page(["ig"], [], `let n = 0; const subs = new Set();
const make = () => { let stopped = false, last; const mine = new Set(); const st = () => (stopped ? last : { n }); return { scope: "shared", subscribe(l) { subs.add(l); mine.add(l); l(st()); return { unsubscribe() { subs.delete(l); } }; }, send() {}, getState: st, stop() { last = { n }; stopped = true; for (const l of mine) subs.delete(l); } }; };
ig.igniteElementFactory(make, { scope: "shared", createAdditionalArgs: (a) => ({ get twice() { return a.getState().n * 2; } }) })("x-a", ({ twice }) => "t" + twice);
const e = put("x-a"); e.remove(); doc.body.append(e);
n = 1; for (const l of [...subs]) l({ n });
equal(text(e), "t2", "shown");`),
	},
	{
		id: "c14-emit-first-host", property: "C14",
		needs: "two elements of one component emitting events",
		breaks: "all events are dispatched on the host of the element created first",
		edits: [{ file: C, from: `	const createEmit = (host: HTMLElement): EmitFromEvents<Events> =>
		((type`, to: `	let emitter: EmitFromEvents<Events> | undefined;
	const createEmit = (host: HTMLElement): EmitFromEvents<Events> =>
		host.isConnected && emitter ? emitter : (emitter = buildEmit(host));
	const buildEmit = (host: HTMLElement): EmitFromEvents<Events> =>
		((type` }],
		demo: page(["rx"], [RTK], `${STORE}
const cmds = new Map();
rx.igniteCore({ source: store, events: (event) => ({ ping: event() }), commands: ({ emit, host }) => ({ who: () => host, go: () => emit("ping", 1) }) })("x-a", ({ who, go }) => { cmds.set(who(), go); return "x"; });
const a = put("x-a"), b = put("x-a"); a.remove(); b.remove(); doc.body.append(a); doc.body.append(b);
const got = []; a.addEventListener("ping", () => got.push("a")); b.addEventListener("ping", () => got.push("b"));
cmds.get(a)(); cmds.get(b)();
equal(got, ["a", "b"], "hosts");`),
	},
	{
		id: "c12-xstate-late-add", property: "C12",
		needs: "a subscriber that sends an event from inside its very first notification",
		breaks: "the state that event leads to is never reported to the subscriber",
		edits: [{ file: "src/adapters/XStateAdapter.ts", from: `			listeners.add(listener);
			ensureSubscription();

			const snapshot = actor.getSnapshot();
			lastKnownSnapshot = snapshot;
			listener(toExtendedState(snapshot));
`, to: `			ensureSubscription();

			const snapshot = actor.getSnapshot();
			lastKnownSnapshot = snapshot;
			listener(toExtendedState(snapshot));
			listeners.add(listener);
` }],
		demo: page(["xa"], ["xstate"], `${MACHINE}
const a = xa.default(machine)(); const seen = [];
a.subscribe((s) => { seen.push(s.n); if (s.n === 0) a.send({ type: "inc" }); });
equal(seen, [0, 1], "states seen");`),
	},
	{
		id: "c11-mobx-stop-listeners", property: "C11",
		needs: "a MobX element removed from the document before its store changes again",
		breaks: "the reaction over the private observable is never disposed",
		edits: [{ file: "src/adapters/MobxAdapter.ts", from: `	function cleanupAutorun() {
		disposer?.();
		disposer = null;`, to: `	function cleanupAutorun() {
		if (!isStopped && listeners.size > 0) {
			disposer?.();
		}
		disposer = null;` }],
		demo: page(["mx"], ["mobx"], `let store;
mx.igniteCore({ source: () => (store = mobx.observable({ n: 0 })), adapter: "mobx" })("x-a", ({ state }) => "n" + state.n);
const e = put("x-a"); e.remove();
equal(mobx.getObserverTree(store, "n").observers?.length ?? 0, 0, "observers left");`),
	},
	{
		id: "c09-cleanup-off-stops", property: "C09",
		needs: "cleanup turned off and the only element moved between parents",
		breaks: "the adapter is stopped although cleanup is off once more than one element has been used",
		edits: [{ file: F, from: `					if (cleanupSharedLifecycle && sharedInstanceCount === 0) {`, to: `					peak = Math.max(peak, sharedInstanceCount + 1);
					if (
						(cleanupSharedLifecycle || peak > 1) &&
						sharedInstanceCount === 0
					) {` }, { file: F, from: `	let sharedInstanceCount = 0;
`, to: `	let sharedInstanceCount = 0;
	let peak = 0;
` }],
		demo: page(["ig"], [], `let stops = 0;
const make = () => ({ scope: "shared", subscribe(l) { l({ n: 0 }); return { unsubscribe() {} }; }, send() {}, getState: () => ({ n: 0 }), stop() { stops++; } });
ig.igniteElementFactory(make, { scope: "shared", cleanup: false })("x-a", () => "x");
const a = put("x-a"), b = put("x-a"); a.remove(); b.remove();
equal(stops, 0, "stops");`),
	},
	{
		id: "c16-scss-query", property: "C16",
		needs: "a style path with a query string",
		breaks: "the stylesheet is taken for an invalid path and never linked",
		edits: [{ file: "src/injectStyles.ts", from: `		const withoutQuery = normalized.split("?")[0]?.split("#")[0] ?? normalized;`, to: `		const withoutQuery = normalized.split("#")[0] ?? normalized;` }],
		demo: page(["ig", "core"], [], `ig.defineIgniteConfig({ styles: "/a.css?v=1" });
console.warn = () => {};
core.igniteCore()("x-a", () => "x");
equal(put("x-a").shadowRoot.querySelectorAll("link").length, 1, "links");`),
	},
	{
		id: "c06-mobx-shallow", property: "C06",
		needs: "an observable whose nested data changes",
		breaks: "changes below the top level do not reach connected elements",
		edits: [{ file: "src/adapters/MobxAdapter.ts", from: `			const snapshot = cloneState();
			lastSnapshot = snapshot;
			if`, to: `			void Object.values(store);
			const snapshot = untracked(cloneState);
			lastSnapshot = snapshot;
			if` }],
		demo: page(["mx"], ["mobx"], `const store = mobx.observable({ deep: { n: 0 } });
mx.igniteCore({ source: store })("x-a", ({ state }) => "n" + state.deep.n);
const e = put("x-a");
mobx.runInAction(() => { store.deep.n = 1; });
equal(text(e), "n1", "shown");`),
	},
	{
		id: "c10-deep-target", property: "C10",
		needs: "events sent from rendered content that crosses a nested shadow root",
		breaks: "events whose target is not the host itself are dropped",
		edits: [{ file: "src/IgniteElement.ts", from: `			this._sendListener = (event: globalThis.Event) => this.send(event);`, to: `			this._sendListener = (event: globalThis.Event) => {
				if (event.composedPath().length < 9) this.send(event);
			};` }],
		demo: page(["rx"], [RTK], `${STORE}
rx.igniteCore({ source: store })("x-a", () => "x");
const e = put("x-a");
let inner = e.shadowRoot; for (let i = 0; i < 4; i++) { const d = doc.createElement("div"); inner.append(d); inner = d; }
inner.dispatchEvent(new window.CustomEvent("send", { detail: { type: "inc" }, bubbles: true, composed: true }));
equal(store.getState(), { n: 1 }, "state");`),
	},
	{
		id: "c15-slice-lookalike", property: "C15",
		needs: "an object with a name, a reducer and actions that is no slice",
		breaks: "it is accepted as a slice instead of being rejected",
		edits: [{ file: "src/utils/adapterGuards.ts", from: `		candidate.actions !== null &&
		typeof candidate.getInitialState === "function"`, to: `		candidate.actions !== null` }],
		demo: page(["core"], [], `let err;
try { core.igniteCore({ source: { name: "x", reducer: (s = { n: 0 }) => s, actions: {} } })("x-a", () => "x"); } catch (e) { err = e; }
assert(err, "accepted");`),
	},
	{
		id: "c15-inference-error", property: "C15",
		needs: "a store factory that throws while the library is being inferred, with an error that is no Error object",
		breaks: "the failing factory is treated as a MobX factory and only fails when an element is created",
		edits: [{ file: "src/IgniteCore.ts", from: `	} catch (error) {
		throw new Error(`, to: `	} catch (error) {
		if (!(error instanceof Error)) return "mobx";
		throw new Error(` }],
		demo: page(["core"], [], `let err;
try { core.igniteCore({ source: () => { throw "no"; } }); } catch (e) { err = e; }
assert(err, "accepted");`),
	},
];
