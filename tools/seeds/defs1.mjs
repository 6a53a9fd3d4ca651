// Planted bugs, written from the property texts. See make.mjs.
const R = "src/renderers/jsx/renderer.ts";
const view = (body) => `import { assert, equal, dom, viewer } from "./kit.mjs";
const window = dom();
const { make, h, m } = await viewer(window);
${body}
process.exit(0);`;
export default [
	{
		id: "c01-foreignobject-append",
		property: "C01",
		needs: "an HTML child appended below a foreignObject that is already on the page",
		breaks: "the appended child is created in the SVG namespace, unlike on a first render",
		edits: [{ file: R, from: `		newNode.namespace === SVG_NAMESPACE && newNode.tag !== "foreignObject"
			? SVG_NAMESPACE
			: undefined;

	const mappedChildren`, to: `		newNode.namespace === SVG_NAMESPACE ? SVG_NAMESPACE : undefined;

	const mappedChildren` }],
		demo: view(`const a = make();
const v = (n) => h("svg", {}, h("foreignObject", {}, ...Array.from({ length: n }, () => h("p", {}, "x"))));
a.show(v(1)); a.show(v(2));
const b = make(); b.show(v(2));
const ns = (x) => [...x.content().querySelectorAll("p")].map((e) => e.namespaceURI);
equal(ns(a), ns(b), "namespaces");`),
	},
	{
		id: "c01-style-null-value",
		property: "C01",
		needs: "a style object whose entry becomes null (not absent) in a later view",
		breaks: "the old declaration stays although the view says the style is unset",
		edits: [{ file: R, from: `			const cssProperty = toKebabCase(key);
			const nextValue = value != null ? String(value) : "";`, to: `			if (value === null) continue;
			const cssProperty = toKebabCase(key);
			const nextValue = value !== undefined ? String(value) : "";` }],
		demo: view(`const a = make();
a.show(h("p", { style: { color: "red", width: "1px" } })); a.show(h("p", { style: { color: null, width: "1px" } }));
equal(a.content().firstChild.style.color, "", "colour");`),
	},
	{
		id: "c01-svg-attr-removal",
		property: "C01",
		needs: "a camel-case SVG attribute that is dropped from a later view",
		breaks: "the hyphenated attribute that was set stays on the element",
		edits: [{ file: R, from: `	const attrName = isSvg
		? normalizeSvgAttributeName(key)
		: (PROPERTY_ATTRIBUTES[key] ?? key);`, to: `	const attrName = PROPERTY_ATTRIBUTES[key] ?? key;` }, { file: R, from: `	if (!isSvg && key in element && key !== "list") {
		// Reset`, to: `	if (key in element && !isSvg && key !== "list") {
		// Reset` }],
		demo: view(`const a = make();
a.show(h("svg", {}, h("path", { strokeWidth: "2", d: "M0" }))); a.show(h("svg", {}, h("path", { d: "M0" })));
equal(a.content().querySelector("path").hasAttribute("stroke-width"), false, "stroke-width kept");`),
	},
	{
		id: "c02-svg-function-component",
		property: "C02",
		needs: "a function component used inside an svg element",
		breaks: "the elements it returns are created as unknown HTML elements",
		edits: [{ file: R, from: `		const result = node.type(node.props);
		return normalizeChild(result, namespace);`, to: `		return normalizeRoot(node.type(node.props));` }],
		demo: view(`const a = make();
const Dot = () => h("circle", { r: "1" });
a.show(h("svg", {}, h("g", {}, h(Dot, {}))));
equal(a.content().querySelector("circle").namespaceURI, "http://www.w3.org/2000/svg", "namespace");`),
	},
	{
		id: "c02-shared-props",
		property: "C02",
		needs: "one props object used for two elements",
		breaks: "building an element writes the normalised children into the caller's own props object",
		edits: [{ file: "src/renderers/jsx/jsx-runtime.ts", from: `rawProps ? { ...rawProps } : {}`, to: `rawProps ?? {}` }],
		demo: view(`const props = { class: "a" };
m.jsx.jsx("p", props);
equal(Object.keys(props), ["class"], "props were modified");`),
	},
	{
		id: "c03-list-rebuild-parent",
		property: "C03",
		needs: "items of a nested list changing places while the list element itself stays",
		breaks: "the list element is replaced too, losing its focus, scroll position and identity",
		edits: [{ file: R, from: `		// fallback replace
		while (elementNode.firstChild) {
			elementNode.removeChild(elementNode.firstChild);
		}
		for (const child of mappedChildren) {
			elementNode.appendChild(createDomFromNormalized(child));
		}
	}`, to: `		return createDomFromNormalized({ ...newNode, children: mappedChildren });
	}` }],
		demo: view(`const a = make();
const v = (items) => h("section", {}, h("ul", { tabindex: "0" }, ...items.map((i) => h("li", {}, i))));
a.show(v(["a", "b"])); const ul = a.content().querySelector("ul");
a.show(v(["b", "a"]));
assert(a.content().querySelector("ul") === ul, "the list element was replaced");
equal(a.content().textContent, "ba", "text");`),
	},
	{
		id: "c03-value-same-state",
		property: "C03",
		needs: "text typed by the user, then a re-render in which the state's value for the input did not change",
		breaks: "the typed text is overwritten by the unchanged state value",
		edits: [{ file: R, from: `		if (next === prev) {
			continue;
		}

		if (next === false`, to: `		if (next === prev && key !== "value") {
			continue;
		}

		if (next === false` }],
		demo: view(`const a = make();
const v = (c) => h("div", { class: c }, h("input", { value: "a" }));
a.show(v("x")); const i = a.content().querySelector("input"); i.value = "typed";
a.show(v("y"));
equal(i.value, "typed", "typed text");`),
	},
	{
		id: "c04-handler-null",
		property: "C04",
		needs: "a handler that becomes null, not absent, in a later view",
		breaks: "the earlier view's handler keeps firing",
		edits: [{ file: R, from: `	if (prevHandler && prevHandler !== nextHandler) {
		element.removeEventListener(eventName, prevHandler);
	}

	if (nextHandler && nextHandler !== prevHandler) {
		element.addEventListener(eventName, nextHandler);
	}`, to: `	if (nextHandler && nextHandler !== prevHandler) {
		if (prevHandler) {
			element.removeEventListener(eventName, prevHandler);
		}
		element.addEventListener(eventName, nextHandler);
	}` }],
		demo: view(`const a = make(); let n = 0;
a.show(h("button", { onClick: () => n++ })); a.show(h("button", { onClick: null }));
a.content().firstChild.dispatchEvent(new window.Event("click"));
equal(n, 0, "calls of the removed handler");`),
	},
	{
		id: "c04-remove-event-name",
		property: "C04",
		needs: "a handler for a multi-word event that is absent from a later view",
		breaks: "it is removed under the wrong event name, so the old handler keeps firing",
		edits: [{ file: R, from: `		const eventName = normalizeEventName(key.slice(2));
		element.removeEventListener(eventName, prev as EventListener);`, to: `		const eventName = key.slice(2).toLowerCase();
		element.removeEventListener(eventName, prev as EventListener);` }],
		demo: view(`const a = make(); let n = 0;
a.show(h("p", { onItemAdded: () => n++ })); a.show(h("p", {}));
a.content().firstChild.dispatchEvent(new window.Event("item-added"));
equal(n, 0, "calls of the removed handler");`),
	},
	{
		id: "c05-denylist-case",
		property: "C05",
		needs: "a tag deny-listed in upper case that occurs inside a view",
		breaks: "the tag is patched in place instead of being rebuilt",
		edits: [{ file: "src/renderers/jsx/noDiffDenylist.ts", from: `	noDiffDenylist.add(tagName.toLowerCase());`, to: `	noDiffDenylist.add(tagName);` }],
		demo: view(`m.strategy.registerNoDiffDenylistTag("X-Player");
const a = make();
a.show(h("div", {}, h("x-player", { title: "a" }))); const p = a.content().querySelector("x-player");
a.show(h("div", {}, h("x-player", { title: "b" })));
assert(a.content().querySelector("x-player") !== p, "patched in place");`),
	},
	{
		id: "c05-unknown-logging",
		property: "C05",
		needs: "a logging level that is none of the documented ones",
		breaks: "rebuilds are reported as warnings although the level is unknown",
		edits: [{ file: "src/renderers/jsx/IgniteJsxRenderStrategy.ts", from: `		if (input === "debug" || input === "warn" || input === "off") {
			return input;
		}
		return "off";`, to: `		if (input === "debug" || input === "off") {
			return input;
		}
		return input ? "warn" : "off";` }],
		demo: view(`m.ig.defineIgniteConfig({ logging: "silent" });
let n = 0; console.warn = () => n++;
const a = make();
a.show(["a", h("b", {})]); a.show([h("b", {}), "a"]);
equal(n, 0, "warnings");`),
	},
	{
		id: "c06-xstate-resubscribe",
		property: "C06",
		needs: "the last element over an actor leaving while cleanup is off, and being inserted again",
		breaks: "the adapter believes it is still subscribed, so the re-inserted element is stuck on an old state",
		also: ["C12", "C09"],
		edits: [{ file: "src/adapters/XStateAdapter.ts", from: `		subscription?.unsubscribe();
		subscription = null;`, to: `		subscription?.unsubscribe();` }],
		demo: `import { equal, dom, load } from "./kit.mjs";
const window = dom();
const { xs, xstate } = await load(["xs"], { libs: ["xstate"] });
const actor = xstate.createActor(xstate.createMachine({ context: { n: 0 }, on: { inc: { actions: xstate.assign({ n: ({ context }) => context.n + 1 }) } } })).start();
xs.igniteCore({ source: actor, cleanup: false })("x-a", ({ state }) => "n" + state.n);
const e = window.document.createElement("x-a");
window.document.body.append(e); e.remove(); window.document.body.append(e);
actor.send({ type: "inc" });
equal(e.shadowRoot.textContent, "n1", "shown");
process.exit(0);`,
	},
	{
		id: "c12-mobx-unsubscribe-all",
		property: "C12",
		needs: "two subscribers of one MobX adapter, one of which unsubscribes",
		breaks: "the remaining subscriber is told nothing any more",
		also: ["C06"],
		edits: [{ file: "src/adapters/MobxAdapter.ts", from: `					if (!listeners.size) {
						cleanupAutorun();
					}`, to: `					if (listeners.size <= 1) {
						cleanupAutorun();
					}` }],
		demo: `import { equal, dom, load } from "./kit.mjs";
dom();
const { ma, mobx } = await load(["ma"], { libs: ["mobx"] });
const store = mobx.observable({ n: 0 });
const a = ma.default(store)();
const seen = [];
a.subscribe((s) => seen.push(s.n)); const s2 = a.subscribe(() => {});
s2.unsubscribe();
mobx.runInAction(() => { store.n = 1; });
equal(seen, [0, 1], "states seen");
process.exit(0);`,
	},
	{
		id: "c12-xstate-notify-copy",
		property: "C12",
		needs: "a subscriber that unsubscribes another one from inside a notification",
		breaks: "the unsubscribed listener is still called in the current notification",
		edits: [{ file: "src/adapters/XStateAdapter.ts", from: `		for (const listener of listeners) {`, to: `		for (const listener of Array.from(listeners)) {` }],
		demo: `import { equal, dom, load } from "./kit.mjs";
dom();
const { xa, xstate } = await load(["xa"], { libs: ["xstate"] });
const a = xa.default(xstate.createMachine({ context: { n: 0 }, on: { inc: { actions: xstate.assign({ n: ({ context }) => context.n + 1 }) } } }))();
let other; const seen = [];
a.subscribe(() => other?.unsubscribe());
other = a.subscribe((s) => seen.push(s.n));
a.send({ type: "inc" });
equal(seen, [0], "states told to a removed subscriber");
process.exit(0);`,
	},
	{
		id: "c12-redux-stop-state",
		property: "C12",
		needs: "a store changed from outside the adapter before the adapter is stopped",
		breaks: "after stopping, the adapter reports an older state than the one at the time of stopping",
		edits: [{ file: "src/adapters/ReduxAdapter.ts", from: `			isStopped = true;
			lastKnownState = store.getState();
			onStop?.();`, to: `			isStopped = true;
			onStop?.();` }],
		demo: `import { equal, dom, load } from "./kit.mjs";
dom();
const { ra, _reduxjs_toolkit: rtk } = await load(["ra"], { libs: ["@reduxjs/toolkit"] });
const store = rtk.configureStore({ reducer: (s = { n: 0 }, a) => (a.type === "inc" ? { n: s.n + 1 } : s) });
const a = ra.default(store)();
store.dispatch({ type: "inc" });
a.stop();
equal(a.getState(), { n: 1 }, "state after stopping");
process.exit(0);`,
	},
	{
		id: "c07-send-while-inactive",
		property: "C07",
		needs: "a send function kept from a render and called after the shared-source element was removed",
		breaks: "the removed element still changes the shared source",
		edits: [{ file: "src/IgniteElement.ts", from: `		if (!this._isActive || !this._adapter) {
			console.warn("[IgniteElement] Cannot`, to: `		if (!this._isActive && !this._adapter) {
			console.warn("[IgniteElement] Cannot` }],
		demo: `import { equal, dom, load } from "./kit.mjs";
const window = dom();
const { rx, _reduxjs_toolkit: rtk } = await load(["rx"], { libs: ["@reduxjs/toolkit"] });
const store = rtk.configureStore({ reducer: (s = { n: 0 }, a) => (a.type === "inc" ? { n: s.n + 1 } : s) });
let kept;
rx.igniteCore({ source: store, cleanup: false })("x-a", ({ state, send }) => { kept = send; return "n" + state.n; });
const e = window.document.createElement("x-a"); window.document.body.append(e); e.remove();
kept({ type: "inc" });
equal(store.getState(), { n: 0 }, "state");
process.exit(0);`,
	},
	{
		id: "c08-class-instance-shared",
		property: "C08",
		needs: "a class renderer that keeps something on itself and two elements of the tag",
		breaks: "the elements share one renderer instance, so one shows what the other counted",
		also: ["C22"],
		edits: [{ file: "src/IgniteElementFactory.ts", from: `		class IsolatedIgniteComponent extends`, to: `		let renderImpl: ((args: RenderArgs) => View) | undefined;

		class IsolatedIgniteComponent extends` }, { file: "src/IgniteElementFactory.ts", from: `				this.renderImpl = resolveRenderer(renderer);`, to: `				renderImpl ??= resolveRenderer(renderer);
				this.renderImpl = renderImpl;` }],
		demo: `import { equal, dom, load } from "./kit.mjs";
const window = dom();
const { xs, xstate } = await load(["xs"], { libs: ["xstate"] });
const machine = xstate.createMachine({ context: { n: 0 } });
class V { renders = 0; render() { this.renders++; return "r" + this.renders; } }
xs.igniteCore({ source: machine })("x-a", V);
const mk = () => { const e = window.document.createElement("x-a"); window.document.body.append(e); return e; };
const a = mk(), b = mk();
equal([a.shadowRoot.textContent, b.shadowRoot.textContent], ["r1", "r1"], "shown");
process.exit(0);`,
	},
	{
		id: "c09-count-in-constructor",
		property: "C09",
		needs: "an element over a shared source that is created and never inserted",
		breaks: "the last connected element leaving no longer releases the source",
		edits: [{ file: "src/IgniteElementFactory.ts", from: `					this.additionalArgs = resolveSharedAdditionalArgs(this);
				}

				connectedCallback(): void {
					sharedInstanceCount += 1;
`, to: `					this.additionalArgs = resolveSharedAdditionalArgs(this);
					sharedInstanceCount += 1;
					this.counted = true;
				}

				private counted = false;

				connectedCallback(): void {
					if (!this.counted) {
						sharedInstanceCount += 1;
						this.counted = true;
					}
` }, { file: "src/IgniteElementFactory.ts", from: `					if (sharedInstanceCount > 0) {
						sharedInstanceCount -= 1;
					}`, to: `					this.counted = false;
					if (sharedInstanceCount > 0) {
						sharedInstanceCount -= 1;
					}` }],
		demo: `import { equal, dom, load } from "./kit.mjs";
const window = dom();
const { rx, _reduxjs_toolkit: rtk } = await load(["rx"], { libs: ["@reduxjs/toolkit"] });
const store = rtk.configureStore({ reducer: (s = { n: 0 }) => s });
let live = 0; const sub = store.subscribe;
store.subscribe = (f) => { live++; const u = sub(f); let done = false; return () => { if (!done) live--; done = true; u(); }; };
rx.igniteCore({ source: store })("x-a", () => "x");
const spare = window.document.createElement("x-a");
const e = window.document.createElement("x-a"); window.document.body.append(e); e.remove();
equal(live, 0, "subscriptions left");
process.exit(0);`,
	},
	{
		id: "c10-payload-clone",
		property: "C10",
		needs: "a dispatched event whose payload has identity or a prototype (an instance, an array)",
		breaks: "the source receives a shallow copy instead of the payload itself",
		edits: [{ file: "src/IgniteElement.ts", from: `		this._adapter?.send(action);`, to: `		this._adapter?.send(
			action !== event && typeof action === "object" ? { ...action } : action,
		);` }],
		demo: `import { assert, dom, load } from "./kit.mjs";
const window = dom();
const { rx } = await load(["rx"]);
const got = [];
const store = { getState: () => ({ n: 0 }), subscribe: () => () => {}, dispatch: (a) => { got.push(a); return a; }, replaceReducer() {}, [Symbol.observable ?? "@@observable"]() { return this; } };
rx.igniteCore({ source: store, adapter: "redux" })("x-a", () => "x");
const e = window.document.createElement("x-a"); window.document.body.append(e);
class Add { type = "add"; get double() { return 2; } }
const action = new Add();
e.dispatchEvent(new window.CustomEvent("send", { detail: action }));
assert(got[0] === action, "the store got something else than the payload");
process.exit(0);`,
	},
	{
		id: "c10-duplicate-after-reinsert",
		property: "C10",
		needs: "an element over a shared source that is removed and inserted again, then sent a plain DOM event",
		breaks: "after re-insertion every event is applied twice",
		edits: [{ file: "src/IgniteElement.ts", from: `		if (!this._sendListener) {
			this._sendListener = (event: globalThis.Event) => this.send(event);
		}
		this.addEventListener`, to: `		this._sendListener = (event: globalThis.Event) => this.send(event);
		this.addEventListener` }, { file: "src/IgniteElement.ts", from: `		if (this._sendListener) {
			this.removeEventListener("send", this._sendListener as EventListener);
		}

		this._unsubscribe?.();
		this._unsubscribe = undefined;

		if`, to: `		this._unsubscribe?.();
		this._unsubscribe = undefined;

		if` }],
		demo: `import { equal, dom, load } from "./kit.mjs";
const window = dom();
const { rx, _reduxjs_toolkit: rtk } = await load(["rx"], { libs: ["@reduxjs/toolkit"] });
const store = rtk.configureStore({ reducer: (s = { n: 0 }, a) => (a.type === "inc" ? { n: s.n + 1 } : s) });
rx.igniteCore({ source: store })("x-a", ({ state }) => "n" + state.n);
const e = window.document.createElement("x-a"); window.document.body.append(e); e.remove(); window.document.body.append(e);
e.dispatchEvent(new window.CustomEvent("send", { detail: { type: "inc" } }));
equal(store.getState(), { n: 1 }, "state");
process.exit(0);`,
	},
	{
		id: "c11-stop-only-subscribed",
		property: "C11",
		needs: "a machine element removed from the document: it unsubscribes before it stops",
		breaks: "the private machine is never stopped, so its delayed transitions still fire",
		edits: [{ file: "src/adapters/XStateAdapter.ts", from: `			isStopped = true;
			cleanupSubscription();
			listeners.clear();
			lastKnownSnapshot = actor.getSnapshot();

			if (ownsActor && typeof actor.stop === "function") {`, to: `			const wasLive = subscription !== null;
			isStopped = true;
			cleanupSubscription();
			listeners.clear();
			lastKnownSnapshot = actor.getSnapshot();

			if (ownsActor && wasLive && typeof actor.stop === "function") {` }],
		demo: `import { equal, dom, load } from "./kit.mjs";
const window = dom();
const { xs, xstate } = await load(["xs"], { libs: ["xstate"] });
let fired = 0;
const machine = xstate.createMachine({ initial: "a", states: { a: { after: { 30: "b" } }, b: { entry: () => { fired++; } } } });
xs.igniteCore({ source: machine })("x-a", () => "x");
const e = window.document.createElement("x-a"); window.document.body.append(e); e.remove();
await new Promise((r) => setTimeout(r, 120));
equal(fired, 0, "transitions after removal");
process.exit(0);`,
	},
	{
		id: "c13-stale-snapshot",
		property: "C13",
		needs: "a shared actor component whose last element left and which is used again",
		breaks: "derived values come from the released adapter and no longer change",
		edits: [{ file: "src/adapters/XStateAdapter.ts", from: `	factory.resolveStateSnapshot = () => entry.snapshot();`, to: `	factory.resolveStateSnapshot = entry.snapshot;` }],
		demo: `import { equal, dom, load } from "./kit.mjs";
const window = dom();
const { xs, xstate } = await load(["xs"], { libs: ["xstate"] });
const actor = xstate.createActor(xstate.createMachine({ context: { n: 0 }, on: { inc: { actions: xstate.assign({ n: ({ context }) => context.n + 1 }) } } })).start();
xs.igniteCore({ source: actor, states: (s) => ({ twice: s.context.n * 2 }) })("x-a", ({ twice }) => "t" + twice);
const e = window.document.createElement("x-a"); window.document.body.append(e); e.remove(); window.document.body.append(e);
actor.send({ type: "inc" });
equal(e.shadowRoot.textContent, "t2", "shown");
process.exit(0);`,
	},
	{
		id: "c14-emit-all-production",
		property: "C14",
		needs: "an emitted event whose payload is false or 0",
		breaks: "the detail of the emitted event is lost",
		edits: [{ file: "src/createComponentFactory.ts", from: `			const customEvent = new CustomEvent(type, {
				detail,
				bubbles`, to: `			const customEvent = new CustomEvent(type, {
				detail: detail || null,
				bubbles` }],
		demo: `import { equal, dom, load } from "./kit.mjs";
const window = dom();
const { rx, _reduxjs_toolkit: rtk } = await load(["rx"], { libs: ["@reduxjs/toolkit"] });
const slice = rtk.createSlice({ name: "s", initialState: { n: 0 }, reducers: {} });
let cmd;
rx.igniteCore({ source: slice, events: (event) => ({ toggled: event() }), commands: ({ emit }) => ({ go: (d) => emit("toggled", d) }) })("x-a", ({ go }) => { cmd = go; return "x"; });
const e = window.document.createElement("x-a"); window.document.body.append(e);
const got = []; e.addEventListener("toggled", (ev) => got.push(ev.detail));
cmd(false); cmd(0);
equal(got, [false, 0], "details");
process.exit(0);`,
	},
	{
		id: "c15-mobx-before-redux",
		property: "C15",
		needs: "a store factory without a named library",
		breaks: "a store factory is called once more per decision than needed: a factory returning one store object is treated as MobX when the store is also observable",
		edits: [{ file: "src/IgniteCore.ts", from: `	if (isReduxStore(source) || isReduxSlice(source)) {
		return "redux";
	}

	if (typeof source === "function") {
		const inferred = inferFromFactory(source as () => unknown);
		if (inferred) {
			return inferred;
		}
	}

	if (isMobxObservable(source)) {
		return "mobx";
	}`, to: `	if (isReduxStore(source) || isReduxSlice(source)) {
		return "redux";
	}

	if (isMobxObservable(source)) {
		return "mobx";
	}

	if (typeof source === "function") {
		return inferFromFactory(source as () => unknown) ?? "mobx";
	}` }],
		demo: `import { assert, dom, load } from "./kit.mjs";
const window = dom();
const { core } = await load(["core"]);
let err;
try { core.igniteCore({ source: () => ({ plain: 1 }) })("x-a", () => "x"); } catch (e) { err = e; }
assert(err, "a factory of something else was accepted");
process.exit(0);`,
	},
	{
		id: "c16-integrity-crossorigin",
		property: "C16",
		needs: "a stylesheet with an integrity value and no cross-origin value",
		breaks: "the link is created without the configured integrity",
		edits: [{ file: "src/injectStyles.ts", from: `		if (attributes) {
			if (attributes.integrity) {`, to: `		if (attributes?.crossOrigin) {
			if (attributes.integrity) {` }],
		demo: `import { equal, dom, viewer } from "./kit.mjs";
const window = dom();
const { make } = await viewer(window, (m) => m.ig.defineIgniteConfig({ styles: { href: "/a.css", integrity: "sha256-x" } }));
const a = make();
const link = a.root.querySelector("link");
equal(link.integrity || link.getAttribute("integrity"), "sha256-x", "integrity");
process.exit(0);`,
	},
	{
		id: "c16-pending-dropped",
		property: "C16",
		needs: "a root created before any configuration, and a first configuration load without styles, then one with",
		breaks: "a pending root is only remembered while it is connected when the first flush happens",
		edits: [{ file: "src/injectStyles.ts", from: `		pendingRoots.delete(root);
		debugLog(DebugNamespace.INJECT_STYLES, "Flushing pending root");
		injectStyles(root);`, to: `		pendingRoots.delete(root);
		debugLog(DebugNamespace.INJECT_STYLES, "Flushing pending root");
		if (root.host?.isConnected !== false) {
			injectStyles(root);
		}` }],
		demo: `import { equal, dom, load } from "./kit.mjs";
const window = dom();
const { rx, ig, _reduxjs_toolkit: rtk } = await load(["rx", "ig"], { libs: ["@reduxjs/toolkit"] });
const slice = rtk.createSlice({ name: "s", initialState: { n: 0 }, reducers: {} });
rx.igniteCore({ source: slice })("x-a", () => "x");
const e = window.document.createElement("x-a");
await ig.loadIgniteConfig(async () => ({ styles: "/a.css" }));
window.document.body.append(e);
equal(e.shadowRoot.querySelectorAll("link").length, 1, "links");
process.exit(0);`,
	},
];
