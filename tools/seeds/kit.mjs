// Bundles the sources below the current directory into a scratch folder and loads them over jsdom.
import fs from "node:fs";
import { createRequire } from "node:module";
import os from "node:os";
import path from "node:path";
import { pathToFileURL } from "node:url";

const root = process.cwd();
export const require = createRequire(path.join(root, "package.json"));
const esbuild = createRequire(require.resolve("vite"))("esbuild");
const scratch = fs.mkdtempSync(path.join(os.tmpdir(), "demo-"));
process.on("exit", () => fs.rmSync(scratch, { recursive: true, force: true }));
export const dir = scratch;

export function dom(html = "<!doctype html><body></body>") {
	const { JSDOM, VirtualConsole } = require("jsdom");
	const { window } = new JSDOM(html, { url: "http://localhost/", virtualConsole: new VirtualConsole() });
	for (const k of Object.getOwnPropertyNames(window)) {
		if (k in globalThis || k.startsWith("_")) continue;
		try {
			globalThis[k] = window[k];
		} catch {}
	}
	for (const k of ["Event", "CustomEvent", "EventTarget"]) globalThis[k] = window[k];
	globalThis.window = window;
	return window;
}

const ENTRIES = { ig: "src/index.ts", xs: "src/xstate.ts", rx: "src/redux.ts", mx: "src/mobx.ts", jsx: "src/jsx/jsx-runtime.ts", strategy: "src/renderers/jsx/IgniteJsxRenderStrategy.ts", lit: "src/renderers/lit.ts", vite: "src/config/vite.ts", webpack: "src/config/webpack.ts", xa: "src/adapters/XStateAdapter.ts", ra: "src/adapters/ReduxAdapter.ts", ma: "src/adapters/MobxAdapter.ts", core: "src/IgniteCore.ts" };
const LIBS = ["xstate", "mobx", "@reduxjs/toolkit", "lit-html"];

let seq = 0;
export async function load(names, { libs = [], conditions = ["browser", "import"] } = {}) {
	const lines = names.map((n) => `export * as ${n} from ${JSON.stringify(path.join(root, ENTRIES[n]))};`);
	for (const l of libs) lines.push(`export * as ${l.replace(/\W/g, "_")} from ${JSON.stringify(l)};`);
	const outfile = path.join(scratch, `b${seq++}.mjs`);
	await esbuild.build({ stdin: { contents: lines.join("\n"), resolveDir: root }, bundle: true, format: "esm", outfile, platform: "neutral", mainFields: ["module", "main"], conditions, external: ["node:*"], logLevel: "silent", target: "es2022" });
	return import(pathToFileURL(outfile).href);
}
export function assert(ok, message) {
	if (!ok) {
		console.error(`FAIL: ${message}`);
		process.exit(1);
	}
}
export const equal = (got, want, what) => assert(JSON.stringify(got) === JSON.stringify(want), `${what}: got ${JSON.stringify(got)}, expected ${JSON.stringify(want)}`);
/** shows JSX views one after another in one shadow root */
export async function viewer(window, before) {
	const m = await load(["strategy", "jsx", "ig"]);
	before?.(m);
	const make = () => {
		const host = window.document.createElement("x-host");
		window.document.body.append(host);
		const rootNode = host.attachShadow({ mode: "open" });
		const s = m.strategy.createIgniteJsxRenderStrategy();
		s.attach(rootNode);
		return { show: (v) => s.render(v), root: rootNode, content: () => rootNode.querySelector("[data-ignite-jsx-root]"), html: () => rootNode.querySelector("[data-ignite-jsx-root]").innerHTML };
	};
	const h = (type, props, ...children) => m.jsx.jsx(type, { ...props, children });
	return { make, h, m };
}
