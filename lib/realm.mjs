// A realm is one fresh DOM + one fresh instance of the code under test.
// Time, errors and console output belong to the harness.
import fs from "node:fs";
import { createRequire } from "node:module";
import vm from "node:vm";
import { REPO } from "./build.mjs";

const repoRequire = createRequire(`${REPO}/package.json`);
const { JSDOM, VirtualConsole } = repoRequire("jsdom");

export const libs = {
	get xstate() {
		return repoRequire("xstate");
	},
	get mobx() {
		return repoRequire("mobx");
	},
	get rtk() {
		return repoRequire("@reduxjs/toolkit");
	},
};

const KEEP = new Set([
	"console", "process", "global", "globalThis", "undefined", "NaN", "Infinity",
	"performance", "queueMicrotask", "structuredClone", "setTimeout", "clearTimeout",
	"setInterval", "clearInterval", "setImmediate", "clearImmediate", "Buffer",
	"fetch", "crypto", "TextEncoder", "TextDecoder", "WebSocket", "localStorage", "sessionStorage",
]);

// ---- controlled time -------------------------------------------------------
export class Clock {
	constructor() {
		this.now = 0;
		this.seq = 0;
		this.pending = new Map();
	}
	set(fn, ms = 0, ...args) {
		const id = ++this.seq;
		this.pending.set(id, { id, at: this.now + Math.max(0, Number(ms) || 0), fn, args });
		return id;
	}
	clear(id) {
		this.pending.delete(id);
	}
	advance(ms, onError) {
		const until = this.now + ms;
		for (;;) {
			let next;
			for (const t of this.pending.values()) {
				if (t.at <= until && (!next || t.at < next.at || (t.at === next.at && t.id < next.id))) next = t;
			}
			if (!next) break;
			this.pending.delete(next.id);
			this.now = next.at;
			try {
				next.fn(...next.args);
			} catch (e) {
				onError?.(e);
			}
		}
		this.now = until;
	}
}

const realConsole = { ...console };
export const real = {
	setTimeout: globalThis.setTimeout,
	clearTimeout: globalThis.clearTimeout,
	setImmediate: globalThis.setImmediate,
	console: realConsole,
};

const scripts = new Map();
function compile(file) {
	let script = scripts.get(file);
	if (!script) {
		script = new vm.Script(`(function(require,module,exports){"use strict";${fs.readFileSync(file, "utf8")}\n})`, {
			filename: file,
		});
		scripts.set(file, script);
	}
	return script;
}

export function evaluateBundle(file, requireFn = repoRequire) {
	const module = { exports: {} };
	compile(file).runInThisContext()(requireFn, module, module.exports);
	return module.exports;
}

let installed = null; // descriptors to restore
let baseKeys = null;
let currentDom = null;

export function resetGlobals() {
	if (installed) {
		for (const [key, desc] of installed) {
			try {
				if (desc) Object.defineProperty(globalThis, key, desc);
				else delete globalThis[key];
			} catch {}
		}
		installed = null;
	}
	if (!baseKeys) baseKeys = new Set(Reflect.ownKeys(globalThis));
	for (const key of Reflect.ownKeys(globalThis)) {
		if (!baseKeys.has(key)) {
			try {
				delete globalThis[key];
			} catch {}
		}
	}
	if (currentDom) {
		currentDom.window.close();
		currentDom = null;
	}
}

/** the values of a global, to be put back by resetGlobals() */
export function override(key, descriptor) {
	installed ??= new Map();
	const desc = Object.getOwnPropertyDescriptor(globalThis, key);
	if (!installed.has(key)) installed.set(key, desc);
	if (descriptor) Object.defineProperty(globalThis, key, { configurable: true, ...descriptor });
	else delete globalThis[key];
}

function install(key, value) {
	const desc = Object.getOwnPropertyDescriptor(globalThis, key);
	if (desc && !desc.configurable) return;
	if (!installed.has(key)) installed.set(key, desc);
	Object.defineProperty(globalThis, key, { value, configurable: true, writable: true, enumerable: false });
}

// jsdom keeps the longhands when a shorthand is removed, and the shorthand when a longhand is; browsers do neither.
const sides = (f) => ["top", "right", "bottom", "left"].map(f);
const SHORTHANDS = {
	margin: sides((s) => `margin-${s}`),
	padding: sides((s) => `padding-${s}`),
};
function completeShorthands(proto) {
	if (proto.completed) return;
	Object.defineProperty(proto, "completed", { value: true });
	const remove = proto.removeProperty;
	const owner = new Map();
	for (const [short, longs] of Object.entries(SHORTHANDS)) for (const l of longs) owner.set(l, short);
	let inside = false; // jsdom's own setters remove properties too
	const guard = (f) =>
		function (...args) {
			if (inside) return f.apply(this, args);
			inside = true;
			try {
				return f.apply(this, args);
			} finally {
				inside = false;
			}
		};
	proto.setProperty = guard(proto.setProperty);
	const css = Object.getOwnPropertyDescriptor(proto, "cssText");
	Object.defineProperty(proto, "cssText", { ...css, set: guard(css.set) });
	proto.removeProperty = function removeProperty(name) {
		const old = remove.call(this, name);
		if (!inside) {
			for (const l of SHORTHANDS[name] ?? []) remove.call(this, l);
			if (owner.has(name)) remove.call(this, owner.get(name));
		}
		return old;
	};
}

export class Realm {
	constructor(bundleFile, { html = "<!doctype html><html><head></head><body></body></html>" } = {}) {
		resetGlobals();
		installed = new Map();
		this.logs = [];
		this.errors = [];
		this.clock = new Clock();
		this.bundleFile = bundleFile;
		const virtualConsole = new VirtualConsole();
		virtualConsole.on("jsdomError", (e) => {
			const detail = e?.cause ?? e?.detail ?? e;
			this.errors.push(detail);
		});
		this.dom = new JSDOM(html, { virtualConsole, url: "http://localhost/", pretendToBeVisual: false });
		currentDom = this.dom;
		this.window = this.dom.window;
		for (const key of Object.getOwnPropertyNames(this.window)) {
			if (KEEP.has(key) || key.startsWith("_")) continue;
			let value;
			try {
				value = this.window[key];
			} catch {
				continue;
			}
			install(key, value);
		}
		install("window", this.window);
		install("self", this.window);
		install("document", this.window.document);
		install("setTimeout", (fn, ms, ...a) => this.clock.set(fn, ms, ...a));
		install("clearTimeout", (id) => this.clock.clear(id));
		install("setInterval", () => 0);
		install("clearInterval", () => {});
		for (const level of ["log", "info", "warn", "error", "debug"]) {
			console[level] = (...args) => {
				this.logs.push([level, args]);
			};
		}
		completeShorthands(this.window.CSSStyleDeclaration.prototype);
		this.tagSeq = 0;
		this.histories = 0;
		this.api = evaluateBundle(bundleFile);
	}
	/** a fresh module graph in the same document: what earlier module instances put on the global is dropped */
	reload() {
		for (const key of Object.getOwnPropertySymbols(globalThis)) {
			if (baseKeys.has(key)) continue;
			try {
				delete globalThis[key];
			} catch {}
		}
		this.window.document.body.replaceChildren();
		this.clock.pending.clear();
		this.logs = [];
		this.errors = [];
		this.api = evaluateBundle(this.bundleFile);
		return this.api;
	}
	get document() {
		return this.window.document;
	}
	/** a tag name never used before in this realm */
	tag(prefix = "x") {
		return `${prefix}-${(++this.tagSeq).toString(36)}`;
	}
	takeErrors() {
		const e = this.errors;
		this.errors = [];
		return e;
	}
	takeLogs() {
		const l = this.logs;
		this.logs = [];
		return l;
	}
	tick(ms) {
		this.clock.advance(ms, (e) => this.errors.push(e));
	}
	close() {
		resetGlobals();
		for (const level of ["log", "info", "warn", "error", "debug"]) console[level] = realConsole[level];
	}
}
