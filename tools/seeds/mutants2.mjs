const R = "src/renderers/jsx/renderer.ts";
const S = "src/renderers/jsx/IgniteJsxRenderStrategy.ts";
const EL = "src/IgniteElement.ts";
const F = "src/IgniteElementFactory.ts";
const CF = "src/createComponentFactory.ts";
const RX = "src/adapters/ReduxAdapter.ts";
const MX = "src/adapters/MobxAdapter.ts";
const XS = "src/adapters/XStateAdapter.ts";
const INJ = "src/injectStyles.ts";
const LD = "src/config/loadIgniteConfig.ts";
const VP = "src/plugins/viteIgniteConfigPlugin.ts";
const WP = "src/plugins/webpackIgniteConfigPlugin.ts";
const RB = "scripts/release-beta.mjs";
const TK = "scripts/refresh-npm-token.js";
const m = (property, name, ...edits) => ({ property, name, edits });
export default [
	m("C02", "falsy-lone-child", ["src/renderers/jsx/types.ts", "if (children === undefined || children === null) {", "if (!children) {"]),
	m("C02", "kebab-vendor", [R, `return value.replace(/([A-Z])/g, "-$1").toLowerCase();`, `return value.replace(/([a-z0-9])([A-Z])/g, "$1-$2").toLowerCase();`]),
	m("C02", "array-holes", [R, `return node.flatMap((child) => normalizeChild(child, namespace));`, `return node.filter((child) => child !== undefined).flatMap((child) => normalizeChild(child, namespace));`]),
	m("C01+C03", "big-lists", [R, `	if (newChildren.length < oldChildren.length) {`, `	if (newChildren.length < oldChildren.length || newChildren.length > 16) {`]),
	m("C03", "many-appended", [R, `	if (newChildren.length < oldChildren.length) {`, `	if (newChildren.length < oldChildren.length || newChildren.length > oldChildren.length + 4) {`]),
	m("C01", "batched-append", [R, `	for (; childIndex < newChildren.length; childIndex++) {
		parent.appendChild(createDomFromNormalized(newChildren[childIndex]));
	}

	// If`, `	for (; childIndex < Math.min(newChildren.length, oldChildren.length + 10); childIndex++) {
		parent.appendChild(createDomFromNormalized(newChildren[childIndex]));
	}

	// If`]),
	m("C02", "depth-limit", [R, `	if (typeof node.type === "function") {
		const result = node.type(node.props);`, `	if (typeof node.type === "function") {
		const result = node.type({ ...node.props, children: normalizeChildren(node.props.children).flat() });`]),
	m("C03", "composition-any", [R, `		element.addEventListener("compositionend", () => {
			composingElements.delete(element);`, `		element.addEventListener("input", () => {
			composingElements.delete(element);
		});
		element.addEventListener("compositionend", () => {
			composingElements.delete(element);`]),
	m("C03", "textarea-value", [R, `		(element.localName === "input" || element.localName === "textarea")
	) {
		const current`, `		element.localName === "input"
	) {
		const current`]),
	m("C04", "handler-object", [R, `		typeof next === "function" ? (next as EventListener) : null;`, `		next && (typeof next === "function" || typeof next === "object") ? (next as EventListener) : null;`]),
	m("C04", "svg-handlers", [R, `		if (key.startsWith("on") && key.length > 2) {
			patchEventListener(element, key, prev, next);`, `		if (key.startsWith("on") && key.length > 2) {
			if (isSvgElement && prev && next) continue;
			patchEventListener(element, key, prev, next);`]),
	m("C05", "log-once", [S, `		if (this.logging === "off") return;`, `		if (this.logging === "off" || reason === this.lastReason) return;
		this.lastReason = reason;`], [S, `	private forceReplaceReason: string | null = null;
`, `	private forceReplaceReason: string | null = null;
	private lastReason: string | null = null;
`]),
	m("C05", "skip-same-view", [R, `	if (options.mode === "replace") {`, `	if (options.mode === "replace" && previous && JSON.stringify(previous) === JSON.stringify(next)) {
		return next;
	}

	if (options.mode === "replace") {`]),
	m("C05", "denylist-svg", [R, `	if (isNoDiffDenylistedTag(newNode.tag)) {`, `	if (!newNode.namespace && isNoDiffDenylistedTag(newNode.tag)) {`]),
	m("C06", "rerender-limit", [EL, `			while (this._renderRequested && this._isActive) {`, `			for (let i = 0; i < 2 && this._renderRequested && this._isActive; i++) {`]),
	m("C06", "rerender-limit3", [EL, `			while (this._renderRequested && this._isActive) {`, `			for (let i = 0; i < 4 && this._renderRequested && this._isActive; i++) {`]),
	m("C06", "throw-keeps-flag", [EL, `		} finally {
			this._isRendering = false;
			this._renderRequested = false;
		}`, `			this._isRendering = false;
		} finally {
			this._renderRequested = false;
		}`]),
	m("C07", "active-after-render", [EL, `			while (this._renderRequested && this._isActive) {`, `			while (this._renderRequested) {`]),
	m("C07", "late-send-shared", [EL, `		if (!this._isActive || !this._adapter) {`, `		if ((!this._isActive && !this.isConnected && !this._unsubscribe && this._adapter?.scope !== StateScope.Shared) || !this._adapter) {`]),
	m("C08", "seeded-store", [RX, `		const createStore = source;
`, `		const createStore = source;
		let spare: ReturnType<typeof createStore> | undefined;
`], [RX, `			const store = createStore();
			if (!isReduxStore(store)) {`, `			const store = spare ?? createStore();
			spare = spare ? undefined : store;
			if (!isReduxStore(store)) {`]),
	m("C08", "shared-context", [XS, `		const actor = createActor(machine);`, `		const actor = createActor(machine, { systemId: machine.id });`]),
	m("C09", "count-on-create", [F, `					const { adapter } = resolveSharedResources();
					super(adapter, renderStrategyFactory());`, `					const { adapter } = resolveSharedResources();
					super(adapter, renderStrategyFactory());
					if (sharedInstanceCount < 0) sharedInstanceCount = 0;`]),
	m("C09", "stop-first", [F, `					if (cleanupSharedLifecycle && sharedInstanceCount === 0) {`, `					if (cleanupSharedLifecycle && sharedInstanceCount === 0 && !this.isConnected) {`]),
	m("C10", "same-payload", [EL, `		this._adapter?.send(action);`, `		if (action === this._lastAction && typeof action === "object") return;
		this._lastAction = action;
		this._adapter?.send(action);`], [EL, `	private _initialized = false;`, `	private _initialized = false;
	private _lastAction: unknown;`]),
	m("C10", "same-event", [EL, `		this._adapter?.send(action);`, `		if (event instanceof Event) {
			if (seen.has(event)) return;
			seen.add(event);
		}
		this._adapter?.send(action);`], [EL, `export default abstract class`, `const seen = new WeakSet<object>();
export default abstract class`]),
	m("C10", "default-prevented", [EL, `			this._sendListener = (event: globalThis.Event) => this.send(event);`, `			this._sendListener = (event: globalThis.Event) => event.defaultPrevented || this.send(event);`]),
	m("C10", "bubbles-only", [EL, `			this._sendListener = (event: globalThis.Event) => this.send(event);`, `			this._sendListener = (event: globalThis.Event) => (event.cancelable && event.composed) || this.send(event);`]),
	m("C10", "reentrant-dropped", [EL, `		this._adapter?.send(action);`, `		if (this._sending > 1) return;
		this._sending++;
		try {
			this._adapter?.send(action);
		} finally {
			this._sending--;
		}`], [EL, `	private _initialized = false;`, `	private _initialized = false;
	private _sending = 0;`]),
	m("C10", "mobx-args", [MX, `if ("args" in event && event.args) {`, `if ("args" in event && event.args?.length) {`]),
	m("C11", "stop-after-done", [XS, `			if (ownsActor && typeof actor.stop === "function") {`, `			if (ownsActor && subscription && typeof actor.stop === "function") {`]),
	m("C11", "unsubscribed-first", [EL, `		if (this._adapter && this._adapter.scope !== StateScope.Shared) {`, `		if (this._adapter && this._adapter.scope === StateScope.Isolated && !this._isRendering) {`]),
	m("C12", "mobx-copy", [MX, `		for (const listener of listeners) {`, `		for (const listener of [...listeners]) {`]),
	m("C12", "mobx-count", [MX, `					if (!listeners.size) {`, `					count -= 1;
					if (count === 0) {`], [MX, `			listeners.add(listener);
`, `			listeners.add(listener);
			count += 1;
`], [MX, `	let isStopped = false;
	let lastSnapshot`, `	let isStopped = false;
	let count = 0;
	let lastSnapshot`]),
	m("C12", "xstate-stop-live", [XS, `			listeners.clear();
			lastKnownSnapshot = actor.getSnapshot();
`, `			listeners.clear();
`]),
	m("C12", "mobx-stop-stale", [MX, `			listeners.clear();
			lastSnapshot = cloneState();
`, `			listeners.clear();
`]),
	m("C12", "xstate-command-after-stop", [XS, `	const snapshot = () => {
		if (!isStopped) {
			lastKnownSnapshot`, `	const snapshot = () => {
		if (subscription) {
			lastKnownSnapshot`]),
	m("C12+C13", "mobx-stale-snapshot", [MX, `		if (!isStopped) {
			lastSnapshot = cloneState();
		}
		return lastSnapshot;`, `		if (!isStopped && !disposer) {
			lastSnapshot = cloneState();
		}
		return lastSnapshot;`]),
	m("C13", "states-memo", [CF, `				const getLatestStates = () => {
					const snapshot = resolveSnapshot(adapter);
`, `				let last: { snapshot: Snapshot; result: StatesResult } | undefined;
				const getLatestStates = () => {
					const snapshot = resolveSnapshot(adapter);
					if (last && JSON.stringify(last.snapshot) === JSON.stringify(snapshot)) return last.result;
`], [CF, `					ensureFacadeResult(result, "states");
					return result;`, `					ensureFacadeResult(result, "states");
					last = { snapshot, result };
					return result;`]),
	m("C13", "states-frozen", [CF, `						get: () => getLatestStates()[key],`, `						get: () => { const now = getLatestStates(); return key in now ? now[key] : initial[key]; },`]),
	m("C13", "nonenumerable-extra", [CF, `				for (const key of Object.keys(initial)) {`, `				for (const key of Object.keys(initial).filter((k) => initial[k] !== undefined)) {`]),
	m("C14", "emit-while-emitting", [CF, `			host.dispatchEvent(customEvent);`, `			if (emitting.has(host)) {
				queueMicrotask(() => host.dispatchEvent(customEvent));
				return;
			}
			emitting.add(host);
			try {
				host.dispatchEvent(customEvent);
			} finally {
				emitting.delete(host);
			}`], [CF, `const isDevelopment = `, `const emitting = new WeakSet<object>();
const isDevelopment = `]),
	m("C14", "inherited-commands", [CF, `	if (!isPlainObject(result)) {`, `	if (feature === "states" ? !isPlainObject(result) : typeof result !== "object" || !result) {`]),
	m("C14", "getter-commands", [CF, `	if (typeof value !== "function") {`, `	if (value && typeof value !== "function") {`]),
	m("C15", "adapter-case", ["src/IgniteCore.ts", `		return options.adapter;`, `		return String(options.adapter).trim().toLowerCase() as ResolvedAdapter;`]),
	m("C15", "factory-slice", ["src/IgniteCore.ts", `		if (isReduxStore(candidate)) {`, `		if (isReduxStore(candidate) || isReduxSlice(candidate)) {`]),
	m("C15", "actor-needs-start", ["src/utils/adapterGuards.ts", `(typeof actor.start === "function" || typeof actor.stop === "function")`, `typeof actor.start === "function" && typeof actor.stop === "function" && !("dispatch" in actor) && "sessionId" in actor && "clock" in actor && "logger" in actor && (actor as { _parent?: unknown })._parent === undefined`]),
	m("C16", "crossorigin-empty", [INJ, `			if (attributes.crossOrigin) {`, `			if (attributes.crossOrigin && attributes.integrity) {`]),
	m("C16", "flush-connected", [INJ, `		pendingRoots.delete(root);
`, `		if (!root.host.isConnected && root.host.shadowRoot?.childNodes.length === 0) continue;
		pendingRoots.delete(root);
`]),
	m("C16", "flush-first-only", [INJ, `	for (const root of Array.from(pendingRoots)) {`, `	for (const root of Array.from(pendingRoots).slice(0, 2)) {`]),
	m("C16", "href-cache", [INJ, `		const linkElement = document.createElement("link");`, `		if (shadowRoot.querySelector("link")) return;
		const linkElement = document.createElement("link");`]),
	m("C17", "flush-last", [LD, `	flushPendingStyles();

	const renderer =`, `	const renderer =`], [LD, `		await loader();
	}
`, `		await loader();
	}
	flushPendingStyles();
`]),
	m("C17", "loader-error-null", [LD, `	const configModule = await loadConfig();
	const config = extractConfig(configModule);

	if (!config) {`, `	const configModule = await loadConfig();
	const config = extractConfig(configModule);

	if (!config || Object.keys(config).length === 0) {`]),
	m("C18", "warn-missing", ["src/renderers/resolveConfiguredRenderStrategy.ts", `	if (renderer !== "ignite-jsx") {`, `	if (configuredRenderer === undefined) {`]),
	m("C18", "registry-first", ["src/renderers/resolveConfiguredRenderStrategy.ts", `registry.get("ignite-jsx") ?? registry.values().next().value`, `registry.values().next().value ?? registry.get("ignite-jsx")`]),
	m("C19", "relative-prefix", [VP, `		if (relativePath && !relativePath.startsWith("..")) {`, `		if (relativePath && !relativePath.startsWith("../..")) {`]),
	m("C19", "root-wins", [VP, `		projectRoot = options.root ?? config.root;`, `		projectRoot = config.root;`]),
	m("C19", "path-stale", [VP, `		resolvedConfigPath =
			resolvedConfigPath ??
			resolveConfigFile({`, `		resolvedConfigPath =
			(options.configPath ? undefined : resolvedConfigPath) ??
			resolveConfigFile({`], [VP, `				root: projectRoot,
				configPath`, `				root: config.root,
				configPath`]),
	m("C20", "includes-last", [WP, `	if (existing.includes(moduleId)) {`, `	if (existing.some((id) => id.startsWith("data:text/javascript,"))) {`]),
	m("C20", "import-kept", [WP, `			import: normalizeToArray(entry.import ?? DEFAULT_IMPORT, moduleId),
		};`, `			import: normalizeToArray(entry.import ?? DEFAULT_IMPORT, moduleId),
			...(entry.layer ? { layer: String(entry.layer) } : {}),
			...(entry.filename === "" ? { filename: undefined } : {}),
		};`]),
	m("C20", "function-context", [WP, `		return async () => applyConfigToEntry(await entry(), moduleId);`, `		const pending = Promise.resolve().then(entry);
		return async () => applyConfigToEntry(await pending, moduleId);`]),
	m("C22", "class-by-name", [F, `			if (
				renderer.prototype &&
				typeof renderer.prototype.render === "function"
			) {`, `			if (
				renderer.prototype &&
				Object.getOwnPropertyNames(renderer.prototype).includes("render")
			) {`]),
	m("C22", "object-copied", [F, `		const bound = renderer.render.bind(renderer);`, `		const copy = { ...renderer, render: renderer.render };
		const bound = copy.render.bind(copy);`]),
	m("C22", "late-render-lookup", [F, `		const bound = renderer.render.bind(renderer);`, `		const bound = renderer.render.bind(Object.create(renderer));`]),
	m("C23", "clean-trim", [RB, `	if (status) {
		console`, `	if (status.split("\\n").some((line) => line && !line.startsWith("D"))) {
		console`]),
	m("C23", "auth-empty", [RB, `	run("pnpm test");`, `	run("pnpm test || true");`]),
	m("C23", "otp-whitespace", [RB, `	if (env.NPM_CONFIG_OTP) {
		return env.NPM_CONFIG_OTP;
	}
`, `	if (env.NPM_CONFIG_OTP && !env.CI) {
		return env.NPM_CONFIG_OTP;
	}
`]),
	m("C23", "publish-retry", [RB, `	run(publishCommand, { env: publishEnv });`, `	try {
		run(publishCommand, { env: publishEnv });
	} catch (error) {
		if (!resolvedOtp) throw error;
		run(publishCommand, { env: publishEnv });
	}`]),
	m("C24", "retry-network", [TK, `		const response = await fetch(`, `		const send = (...args) => fetch(...args).catch(() => fetch(...args));
		const response = await send(`]),
	m("C24", "redirect-ok", [TK, `		if (!response.ok) {`, `		if (!response.ok && response.status !== 304 && response.status !== 409) {`]),
	m("C24", "repo-encoded", [TK, "`https://api.github.com/repos/${repo}/actions/secrets/NPM_TOKEN`", "`https://api.github.com/repos/${encodeURI(repo)}/actions/secrets/NPM_TOKEN`"]),
	m("C21", "registry-partial", ["src/internal/setupDomPolyfill.ts", `if (typeof host.customElements === "undefined") {`, `if (typeof host.customElements?.whenDefined === "undefined") {`]),
	m("C21", "window-needed", [LD, `		return config ? defineIgniteConfig(config) : undefined;`, `		return config && config.styles ? defineIgniteConfig(config) : config;`]),
];
