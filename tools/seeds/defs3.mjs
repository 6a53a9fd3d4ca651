const view = (body) => `import { assert, equal, dom, viewer } from "./kit.mjs";
const window = dom();
const { make, h, m } = await viewer(window);
${body}
process.exit(0);`;
const page = (names, libs, body) => `import { assert, equal, dom, load, dir } from "./kit.mjs";
const window = dom();
const { ${[...names, ...libs.map((l) => `${l.replace(/\W/g, "_")}`)].join(", ")} } = await load(${JSON.stringify(names)}, { libs: ${JSON.stringify(libs)} });
const doc = window.document;
const put = (tag) => { const e = doc.createElement(tag); doc.body.append(e); return e; };
const text = (e) => e.shadowRoot.textContent;
${body}
process.exit(0);`;
const RTK = "@reduxjs/toolkit";
const R = "src/renderers/jsx/renderer.ts";
const S = "src/renderers/jsx/IgniteJsxRenderStrategy.ts";
const F = "src/IgniteElementFactory.ts";
const C = "src/createComponentFactory.ts";
const RX = "src/adapters/ReduxAdapter.ts";
const STORE = `const store = _reduxjs_toolkit.configureStore({ reducer: (s = { n: 0 }, a) => (a.type === "inc" ? { n: s.n + 1 } : s) });`;
const SLICE = `const slice = _reduxjs_toolkit.createSlice({ name: "s", initialState: { n: 0 }, reducers: { inc: (s) => { s.n++; } } });`;
export default [
	{
		id: "c01-text-to-empty", property: "C01",
		needs: "a text child that becomes the empty string",
		breaks: "the old text stays on the page",
		edits: [{ file: R, from: "if (domNode.textContent !== newNode.value) {", to: "if (newNode.value && domNode.textContent !== newNode.value) {" }],
		demo: view(`const a = make(); a.show(h("p", {}, "x", "y")); a.show(h("p", {}, "", "y"));
const b = make(); b.show(h("p", {}, "", "y"));
equal(a.html(), b.html(), "content");`),
	},
	{
		id: "c03-many-appended", property: "C03",
		needs: "five or more items appended to a list in one render",
		breaks: "the whole list is rebuilt, so focus and element-held state in it are lost",
		edits: [{ file: R, from: "	if (newChildren.length < oldChildren.length) {", to: "	if (\n		newChildren.length < oldChildren.length ||\n		newChildren.length > oldChildren.length + 4\n	) {" }],
		demo: view(`const a = make(); const v = (n) => h("ul", {}, ...Array.from({ length: n }, (_, i) => h("li", {}, String(i))));
a.show(v(3)); const li = a.content().querySelector("li"); a.show(v(20));
assert(a.content().querySelector("li") === li, "the first item was replaced");`),
	},
	{
		id: "c05-denylist-svg", property: "C05",
		needs: "a deny-listed tag inside SVG content",
		breaks: "it is patched in place and nothing is reported",
		edits: [{ file: R, from: "	if (isNoDiffDenylistedTag(newNode.tag)) {", to: "	if (!newNode.namespace && isNoDiffDenylistedTag(newNode.tag)) {" }],
		demo: view(`m.strategy.registerNoDiffDenylistTag("x-chart");
const a = make(); const v = (t) => h("svg", {}, h("x-chart", { id: t }));
a.show(v("a")); const before = a.content().querySelector("x-chart"); a.show(v("b"));
assert(a.content().querySelector("x-chart") !== before, "a deny-listed element was kept");`),
	},
	{
		id: "c05-log-once", property: "C05",
		needs: "the same reason for a rebuild in two renders in a row, with logging on",
		breaks: "only the first of the rebuilds is reported",
		edits: [{ file: S, from: `		if (this.logging === "off") return;`, to: `		if (this.logging === "off" || reason === this.lastReason) return;\n		this.lastReason = reason;` }, { file: S, from: `	private forceReplaceReason: string | null = null;\n`, to: `	private forceReplaceReason: string | null = null;\n	private lastReason: string | null = null;\n` }],
		demo: view(`m.ig.defineIgniteConfig({ logging: "warn" }); let n = 0; console.warn = () => { n++; };
const a = make(); a.show(h("p", {})); a.show(h("b", {})); a.show(h("i", {}));
equal(n, 2, "reports");`),
	},
	{
		id: "c09-count-per-tag", property: "C09",
		needs: "two tags registered from one factory over a shared source, the last element of one of them leaving",
		breaks: "the adapter is stopped although elements of the other tag are connected; they go dead",
		edits: [{ file: F, from: "	let sharedInstanceCount = 0;\n\n	const createAdditionalArgs", to: "	const createAdditionalArgs" }, { file: F, from: "		sharedAdditionalArgs = new WeakMap();\n		sharedInstanceCount = 0;", to: "		sharedAdditionalArgs = new WeakMap();" }, { file: F, from: "			resolveSharedResources();\n\n			class Shared", to: "			resolveSharedResources();\n			let sharedInstanceCount = 0;\n\n			class Shared" }],
		demo: page(["rx"], [RTK], `${STORE}
const c = rx.igniteCore({ source: store });
c("x-a", ({ state }) => String(state.n)); c("x-b", ({ state }) => String(state.n));
const a = put("x-a"), b = put("x-b"); b.remove(); store.dispatch({ type: "inc" });
equal(text(a), "1", "shown by the other tag");`),
	},
	{
		id: "c10-stop-propagation", property: "C10",
		needs: "a component inside the light children of another component, a send event that bubbles through both",
		breaks: "the outer component never gets the event",
		edits: [{ file: "src/IgniteElement.ts", from: "		this._adapter?.send(action);", to: "		const adapter = this._adapter;\n		if (event instanceof CustomEvent) {\n			event.stopPropagation();\n		}\n		adapter?.send(action);" }],
		demo: page(["rx"], [RTK], `${SLICE}
const c = rx.igniteCore({ source: slice }); const seen = [];
c("x-in", ({ state }) => String(state.s.n)); c("x-out", ({ state }) => String(state.s.n));
const out = put("x-out"), inner = doc.createElement("x-in"); out.append(inner);
inner.dispatchEvent(new window.CustomEvent("send", { bubbles: true, composed: true, detail: slice.actions.inc() }));
equal([text(inner), text(out)], ["1", "1"], "both");`),
	},
	{
		id: "c12-xstate-done-dropped", property: "C12",
		needs: "a machine that reaches a final state while somebody is subscribed",
		breaks: "subscribers are never told the final state",
		edits: [{ file: "src/adapters/XStateAdapter.ts", from: "			lastKnownSnapshot = state;\n			notify(state);", to: "			lastKnownSnapshot = state;\n			if ((state as { status?: string }).status === \"active\") {\n				notify(state);\n			}" }],
		demo: page(["xa"], ["xstate"], `const machine = xstate.createMachine({ initial: "a", states: { a: { on: { go: "b" } }, b: { type: "final" } } });
const adapter = xa.default(machine)(); const told = [];
adapter.subscribe((s) => told.push(s.value)); adapter.send({ type: "go" });
equal(told, ["a", "b"], "told");`),
	},
	{
		id: "c14-no-detail-no-bubble", property: "C14",
		needs: "an emitted event without detail and a listener on an ancestor",
		breaks: "the event does not leave its host",
		edits: [{ file: C, from: "				bubbles: true,", to: "				bubbles: detail !== undefined," }],
		demo: page(["rx"], [RTK], `${SLICE}
const c = rx.igniteCore({ source: slice, events: (event) => ({ done: event() }), commands: ({ emit }) => ({ fire: () => emit("done") }) });
let args; c("x-a", (a) => { args = a; return "x"; }); put("x-a"); let n = 0; doc.body.addEventListener("done", () => n++);
args.fire(); equal(n, 1, "events at the body");`),
	},
	{
		id: "c17-latest-call-wins", property: "C17",
		needs: "two overlapping loads, the first of which arrives last",
		breaks: "the configuration that arrived last is dropped",
		edits: [{ file: "src/config/loadIgniteConfig.ts", from: "	const configModule = await loadConfig();\n	const config = extractConfig(configModule);", to: "	const ticket = ++latest;\n	const configModule = await loadConfig();\n	const config =\n		ticket === latest ? extractConfig(configModule) : undefined;" }, { file: "src/config/loadIgniteConfig.ts", from: "type ConfigWrapper =", to: "let latest = 0;\n\ntype ConfigWrapper =" }],
		demo: `import { equal, dom, load } from "./kit.mjs";
const window = dom();
import path from "node:path"; import fs from "node:fs";
import { dir, require } from "./kit.mjs";
import { createRequire } from "node:module"; import { pathToFileURL } from "node:url";
const esbuild = createRequire(require.resolve("vite"))("esbuild");
const out = path.join(dir, "load.mjs");
await esbuild.build({ stdin: { contents: 'export * from "./src/config/loadIgniteConfig.ts"; export * from "./src/config.ts";', resolveDir: process.cwd() }, bundle: true, format: "esm", outfile: out, platform: "neutral", mainFields: ["module", "main"], conditions: ["browser", "import"], logLevel: "silent", target: "es2022" });
const m = await import(pathToFileURL(out).href);
let first; const a = m.loadIgniteConfig(() => new Promise((r) => { first = r; }));
await m.loadIgniteConfig(async () => ({ default: { logging: "warn" } }));
first({ default: { logging: "debug" } }); const got = await a;
equal([got?.logging, m.getIgniteConfig()?.logging], ["debug", "debug"], "configuration");
process.exit(0);`,
	},
	{
		id: "c22-inherited-render", property: "C22",
		needs: "a class renderer that inherits its render method",
		breaks: "the class is called as a function and every element throws",
		edits: [{ file: F, from: `typeof renderer.prototype.render === "function"`, to: `Object.prototype.hasOwnProperty.call(renderer.prototype, "render")` }],
		demo: page(["rx"], [RTK], `${SLICE}
const c = rx.igniteCore({ source: slice });
class Base { render({ state }) { return "n" + state.s.n; } } class Mine extends Base {}
c("x-a", Mine); let e; try { e = put("x-a"); } catch {}
equal(e && text(e), "n0", "shown");`),
	},
	{
		id: "c23-untracked-ignored", property: "C23",
		needs: "a working tree that is clean but for an untracked file",
		breaks: "the release goes on and publishes the untracked file",
		edits: [{ file: "scripts/release-beta.mjs", from: `"git status --porcelain"`, to: `"git status --porcelain --untracked-files=no"` }],
		demo: `import { assert, dir } from "./kit.mjs";
import fs from "node:fs"; import path from "node:path"; import { spawnSync, execSync } from "node:child_process";
const bin = path.join(dir, "bin"), tree = path.join(dir, "tree"), log = path.join(dir, "log"); fs.mkdirSync(bin); fs.mkdirSync(tree); fs.writeFileSync(log, "");
const git = execSync("command -v git", { encoding: "utf8", shell: "/bin/sh" }).trim();
execSync(git + " init -q . && " + git + " -c user.name=a -c user.email=a@b commit -q --allow-empty -m x", { cwd: tree });
fs.writeFileSync(path.join(tree, "new.txt"), "x");
fs.writeFileSync(path.join(bin, "git"), "#!/bin/sh\\ncase \\"$1\\" in status|rev-parse|diff|ls-files) cd " + tree + " && exec " + git + " \\"$@\\";; esac\\nexit 0\\n", { mode: 0o755 });
for (const c of ["npm", "pnpm"]) fs.writeFileSync(path.join(bin, c), "#!/bin/sh\\necho " + c + " $* >> " + log + "\\n[ \\"$1\\" = whoami ] && echo me\\nexit 0\\n", { mode: 0o755 });
const r = spawnSync(process.execPath, ["scripts/release-beta.mjs", "--otp=1"], { encoding: "utf8", input: "", env: { PATH: bin + ":/usr/bin:/bin" } });
assert(r.status !== 0 && !/publish/.test(fs.readFileSync(log, "utf8")), "released from a tree that is not clean");
process.exit(0);`,
	},
];
