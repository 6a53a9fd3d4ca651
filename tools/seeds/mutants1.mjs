const R = "src/renderers/jsx/renderer.ts", S = "src/renderers/jsx/IgniteJsxRenderStrategy.ts", F = "src/IgniteElementFactory.ts", C = "src/createComponentFactory.ts", E = "src/IgniteElement.ts";
const X = "src/adapters/XStateAdapter.ts", RX = "src/adapters/ReduxAdapter.ts", M = "src/adapters/MobxAdapter.ts", I = "src/injectStyles.ts", L = "src/config/loadIgniteConfig.ts", CF = "src/config.ts";
const V = "src/plugins/viteIgniteConfigPlugin.ts", W = "src/plugins/webpackIgniteConfigPlugin.ts", RB = "scripts/release-beta.mjs", T = "scripts/refresh-npm-token.js", G = "src/utils/adapterGuards.ts", K = "src/IgniteCore.ts";
const m = (property, name, ...edits) => ({ property, name, edits: typeof edits[0] === "string" ? [edits] : edits });
export default [
	m("C01", "style-string-to-object", R, `	if (next && typeof next === "object") {
		style.cssText = "";`, `	if (next && typeof next === "object") {`),
	m("C01", "style-remove-camel", R, `style.removeProperty(toKebabCase(key));`, `style.removeProperty(key);`),
	m("C01", "text-to-empty", R, `if (domNode.textContent !== newNode.value) {`, `if (newNode.value && domNode.textContent !== newNode.value) {`),
	m("C01", "loose-equal", R, `		if (next === prev) {`, `		if (next == prev) {`),
	m("C01", "remove-falsy", R, `		if (!(key in newProps)) {`, `		if (!(key in newProps) && oldProps[key]) {`),
	m("C01", "class-same", R, `			const nextClass = next !== false && next != null ? String(next) : "";`, `			if (next === prev && "class" in newProps) continue;
			const nextClass = next !== false && next != null ? String(next) : "";`),
	m("C01", "namespace-ignored", R, `return a.tag === b.tag && (a.namespace ?? "") === (b.namespace ?? "");`, `return a.tag === b.tag;`),
	m("C04", "handler-to-nonfunction", R, `	if (key.startsWith("on") && key.length > 2 && typeof prev === "function") {`, `	if (key.startsWith("on") && typeof prev === "function" && prev.length > 0) {`),
	m("C02", "style-zero", R, `			if (value != null) {
				style.setProperty(toKebabCase(key), String(value));`, `			if (value) {
				style.setProperty(toKebabCase(key), String(value));`),
	m("C02", "number-nan", R, `	if (typeof node === "string" || typeof node === "number") {`, `	if (typeof node === "string" || (typeof node === "number" && Number.isFinite(node))) {`),
	m("C02", "svg-length-adjust", R, `	"lengthAdjust",
`, ``),
	m("C02", "svg-tabindex", R, `	if (name === "tabIndex") {
		return "tabindex";
	}
`, ``),
	m("C02", "prop-named-on", R, `		if (key.startsWith("on") && key.length > 2) {
			patchEventListener`, `		if (key.startsWith("on")) {
			patchEventListener`),
	m("C02", "ref-attribute", R, `	for (const [key, next] of Object.entries(newProps)) {
		if (key === "children" || key === "ref") continue;`, `	for (const [key, next] of Object.entries(newProps)) {
		if (key === "children") continue;`),
	m("C02", "svg-in-foreign", R, `	const isSvgRoot = tagName === "svg";`, `	const isSvgRoot = tagName === "svg" && namespace !== SVG_NAMESPACE;`),
	m("C02", "svg-aria", R, `	if (name.startsWith("data") || name.startsWith("aria")) {`, `	if (name.startsWith("data-") || name.startsWith("aria-")) {`),
	m("C02", "kebab-digits", R, `value.replace(/([A-Z])/g, "-$1").toLowerCase()`, `value.replace(/([a-z])([A-Z])/g, "$1-$2").toLowerCase()`),
	m("C02", "fragment-first-child", "src/renderers/jsx/types.ts", `	if (children === undefined || children === null) {`, `	if (children === undefined || children === null || children === "") {`),
	m("C03", "sorted-lengths", R, `			if (oldSorted === newSorted) {`, `			if (oldSorted.length === newSorted.length) {`),
	m("C03", "text-replaced", R, `			domNode.textContent = newNode.value;
		}
		return domNode;`, `			return createDomFromNormalized(newNode);
		}
		return domNode;`),
	m("C03", "svg-case-tag", R, `(domNode as Element).tagName.toLowerCase() !== newNode.tag.toLowerCase()`, `(domNode as Element).tagName.toLowerCase() !== newNode.tag`),
	m("C03", "checkbox-reassigned", R, `		if (next === prev) {
			continue;
		}
`, `		if (next === prev && key !== "checked") {
			continue;
		}
`),
	m("C03", "comment-vs-text", R, `		if (domNode.nodeType !== Node.COMMENT_NODE) {`, `		if (domNode.nodeType !== Node.COMMENT_NODE || oldNode !== newNode) {`),
	m("C04", "one-underscore", R, `.replace(/_/g, "-");
	return withHyphens`, `.replace(/_/, "-");
	return withHyphens`),
	m("C04", "capture-focus", R, `element.addEventListener(eventName, nextHandler);`, `element.addEventListener(eventName, nextHandler, eventName === "focus");`),
	m("C04", "same-source-handler", R, `	if (nextHandler && nextHandler !== prevHandler) {`, `	if (nextHandler && String(nextHandler) !== String(prevHandler)) {`),
	m("C04", "leading-separator", R, "const trimmed = rawName.replace(/^[^a-zA-Z0-9]+/, \"\");", "const trimmed = rawName.replace(/^[^a-zA-Z0-9]/, \"\");"),
	m("C05", "denylist-only-parents", R, `	if (isNoDiffDenylistedTag(newNode.tag)) {`, `	if (isNoDiffDenylistedTag(newNode.tag) && newNode.children.length > 0) {`),
	m("C05", "flag-values", S, `(envFlag ?? "true") !== "false"`, `(envFlag ?? "true") === "true"`),
	m("C05", "replace-case", S, `strategy === "replace" ? "replace" : "diff"`, `strategy === "diff" || strategy === undefined ? "diff" : "replace"`),
	m("C06", "xstate-context-only", X, `			lastKnownSnapshot = state;
			notify(state);`, `			const changed = state.context !== lastKnownSnapshot.context;
			lastKnownSnapshot = state;
			if (changed) notify(state);`),
	m("C06", "redux-known-state", RX, `					listener(store.getState());
				}`, `					if (store.getState() !== lastKnownState) listener(store.getState());
				}`),
	m("C06", "mobx-equal-snapshot", M, `			const snapshot = cloneState();
			lastSnapshot = snapshot;
			if (starting) {`, `			const snapshot = cloneState();
			const same = JSON.stringify(snapshot) === JSON.stringify(lastSnapshot);
			lastSnapshot = snapshot;
			if (starting || same) {`),
	m("C06+C12", "xstate-done-dropped", X, `			lastKnownSnapshot = state;
			notify(state);`, `			lastKnownSnapshot = state;
			if (state.status === "active") notify(state);`),
	m("C06", "no-render-on-connect", E, `		this.addEventListener("send", this._sendListener as EventListener);
		this.renderTemplate();`, `		this.addEventListener("send", this._sendListener as EventListener);
		if (!this._renderRequested) this.renderTemplate();`),
	m("C06", "state-same-skip", E, `			this._currentState = state;
			if (this._isActive) {`, `			const unchanged = this._initialized && JSON.stringify(this._currentState) === JSON.stringify(state);
			this._currentState = state;
			if (this._isActive && !unchanged) {`),
	m("C09", "count-per-tag", [F, `	let sharedInstanceCount = 0;

	const createAdditionalArgs`, `	const createAdditionalArgs`], [F, `		sharedAdditionalArgs = new WeakMap();
		sharedInstanceCount = 0;`, `		sharedAdditionalArgs = new WeakMap();`], [F, `			resolveSharedResources();

			class Shared`, `			resolveSharedResources();
			let sharedInstanceCount = 0;

			class Shared`]),
	m("C09", "release-late", F, `				disconnectedCallback(): void {
					super.disconnectedCallback();
`, `				disconnectedCallback(): void {
					super.disconnectedCallback();
					if (this.isConnected) return;
`),
	m("C10", "stop-propagation", E, `		const action =
			event instanceof`, `		if (event instanceof CustomEvent) event.stopPropagation();
		const action =
			event instanceof`),
	m("C10", "detail-always", E, `event instanceof CustomEvent ? (event.detail ?? event) : event;`, `event instanceof CustomEvent ? event.detail : event;`),
	m("C10", "nested-detail", E, `event instanceof CustomEvent ? (event.detail ?? event) : event;`, `event instanceof CustomEvent ? (event.detail?.detail ?? event.detail ?? event) : event;`),
	m("C14+C08", "actor-cached", [C, `				const actor = resolveActor(adapter);`, `				const actor = (cachedActor ??= resolveActor(adapter));`], [C, `	const eventDefinitions = events ??`, `	let cachedActor: CommandActor | undefined;
	const eventDefinitions = events ??`]),
	m("C14", "no-detail-no-bubble", C, `				bubbles: true,`, `				bubbles: detail !== undefined,`),
	m("C14", "null-detail", C, `				detail,
				bubbles`, `				detail: detail || undefined,
				bubbles`),
	m("C14", "array-result", C, `typeof value === "object" && value !== null && !Array.isArray(value);`, `typeof value === "object" && value !== null;`),
	m("C14", "emit-connected-only", C, `			host.dispatchEvent(customEvent);`, `			if (host.isConnected) host.dispatchEvent(customEvent);`),
	m("C14", "symbol-commands", C, `					assertCommandFunction(value, String(key));
`, `					if (value !== undefined) assertCommandFunction(value, String(key));
`),
	m("C15", "mobx-map", "src/utils/mobxGuards.ts", `	if (isObservable(source)) {`, `	if (isObservable(source) && !(source instanceof Map)) {`),
	m("C15", "factory-null", K, `	} catch (error) {
		throw new Error(`, `	} catch (error) {
		if (error instanceof TypeError) return undefined;
		throw new Error(`),
	m("C15", "actor-stopped", X, `		actor.start();
		return createSharedFactory`, `		if (actor.getSnapshot().status === "active") actor.start();
		return createSharedFactory`),
	m("C16", "config-clears", CF, `	if ("styles" in normalized) {
		setGlobalStyles(normalized.styles);
	}`, `	setGlobalStyles(normalized.styles);`),
	m("C16", "pending-kept", I, `		pendingRoots.delete(root);
`, ``),
	m("C16", "css-trim", I, `const withoutQuery = normalized.split("?")[0]`, `const withoutQuery = path.split("?")[0]`),
	m("C17", "latest-call-wins", [L, `	const configModule = await loadConfig();
	const config = extractConfig(configModule);`, `	const ticket = ++latest;
	const configModule = await loadConfig();
	const config = ticket === latest ? extractConfig(configModule) : undefined;`], [L, `type ConfigWrapper =`, `let latest = 0;

type ConfigWrapper =`]),
	m("C21", "server-raw", L, `		return config ? defineIgniteConfig(config) : undefined;`, `		if (config) defineIgniteConfig(config);
		return config;`),
	m("C17", "renderer-first", L, `	if (loader) {
		await loader();
	}`, `	if (loader) {
		void loader();
	}`),
	m("C17", "default-object", L, `typeof module === "object" && "default" in module;
}

function isIgnite`, `typeof module === "object" && Object.keys(module).includes("default");
}

function isIgnite`),
	m("C19", "root-order", V, `projectRoot = options.root ?? config.root;`, `projectRoot = config.root ?? options.root;`),
	m("C19", "raw-quotes", V, `const configModuleImport = JSON.stringify(importSpecifier);`, "const configModuleImport = `\"${importSpecifier}\"`;"),
	m("C19", "inject-body", V, `options.injectTo ?? "head-prepend"`, `options.injectTo === "body" ? "body-prepend" : (options.injectTo ?? "head-prepend")`),
	m("C20", "encode-uri", W, "encodeURIComponent(source)", "encodeURI(source)"),
	m("C20", "async-entry", W, `		return async () => applyConfigToEntry(await entry(), moduleId);`, `		let made: Promise<WebpackEntry> | undefined;
		return async () => applyConfigToEntry(await (made ??= Promise.resolve(entry())), moduleId);`),
	m("C20", "depend-on", W, `			import: normalizeToArray(entry.import ?? DEFAULT_IMPORT, moduleId),`, `			...(entry.dependOn ? {} : { import: normalizeToArray(entry.import ?? DEFAULT_IMPORT, moduleId) }),`),
	m("C22", "inherited-render", F, `typeof renderer.prototype.render === "function"`, `Object.prototype.hasOwnProperty.call(renderer.prototype, "render")`),
	m("C22", "unbound-object", F, `		const bound = renderer.render.bind(renderer);
		return (args) => bound(args);`, `		const { render } = renderer;
		return (args) => render(args);`),
	m("C22", "duplicate-late", F, `		if (customElements.get(elementName)) {
			throw new Error(`, `		if (customElements.get(elementName)) {
			releaseSharedResources();
			throw new Error(`),
	m("C23", "untracked-ignored", RB, `"git status --porcelain"`, `"git status --porcelain --untracked-files=no"`),
	m("C23", "otp-on-command", RB, `	run(publishCommand, { env: publishEnv });`, "	run(resolvedOtp ? `${publishCommand} --otp=${resolvedOtp}` : publishCommand, { env: publishEnv });"),
	m("C23", "otp-global", RB, `		publishEnv.NPM_CONFIG_OTP = resolvedOtp;`, `		env.NPM_CONFIG_OTP = publishEnv.NPM_CONFIG_OTP = resolvedOtp;`),
	m("C23", "env-first", RB, `	if (otp) {
		return otp;
	}

	if (env.NPM_CONFIG_OTP) {
		return env.NPM_CONFIG_OTP;
	}`, `	if (env.NPM_CONFIG_OTP) {
		return env.NPM_CONFIG_OTP;
	}

	if (otp) {
		return otp;
	}`),
	m("C23", "install-lenient", RB, `run("pnpm install --no-frozen-lockfile");`, `run("pnpm install --no-frozen-lockfile || pnpm install");`),
	m("C23", "publish-error-swallowed", RB, `	run(publishCommand, { env: publishEnv });`, `	try {
		run(publishCommand, { env: publishEnv });
	} catch (error) {
		if (error.status !== 1) throw error;
		console.warn("[release:beta] publish reported warnings");
	}`),
	m("C24", "untrimmed", T, `			encoding: "utf8",
		}).trim();
		if (!newToken`, `			encoding: "utf8",
		});
		if (!newToken`),
	m("C24", "status-below-400", T, `if (!response.ok) {`, `if (response.status >= 400) {`),
	m("C24", "token-prefix", T, `console.log("✅ New token generated successfully.");`, `console.log("✅ New token generated successfully.", newToken.slice(-6));`),
	m("C24", "env-before", T, "Authorization: `Bearer ${githubToken}`", "Authorization: `Bearer ${githubToken.trim()}`"),
];
