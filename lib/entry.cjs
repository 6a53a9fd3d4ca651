// Lazily evaluated handles on the code under test. Every function call evaluates
// the module (once per bundle instance); a fresh bundle instance is a fresh module
// graph, so no module-level state survives from one realm to the next.
module.exports = {
	index: () => require("@repo/src/index.ts"),
	xstate: () => require("@repo/src/xstate.ts"),
	redux: () => require("@repo/src/redux.ts"),
	mobx: () => require("@repo/src/mobx.ts"),
	rendererJsx: () => require("@repo/src/renderers/ignite-jsx.ts"),
	rendererLit: () => require("@repo/src/renderers/lit.ts"),
	jsx: () => require("@repo/src/jsx/index.ts"),
	jsxRuntime: () => require("@repo/src/jsx/jsx-runtime.ts"),
	jsxDevRuntime: () => require("@repo/src/jsx/jsx-dev-runtime.ts"),
	loadConfig: () => require("@repo/src/config/loadIgniteConfig.ts"),
	vite: () => require("@repo/src/config/vite.ts"),
	webpack: () => require("@repo/src/config/webpack.ts"),
	lit: () => require("lit-html"),
};
Object.assign(module.exports, {
	core: () => require("@repo/src/IgniteCore.ts"),
	xstateAdapter: () => require("@repo/src/adapters/XStateAdapter.ts"),
	reduxAdapter: () => require("@repo/src/adapters/ReduxAdapter.ts"),
	mobxAdapter: () => require("@repo/src/adapters/MobxAdapter.ts"),
	jsxStrategy: () => require("@repo/src/renderers/jsx/IgniteJsxRenderStrategy.ts"),
	resolve: () => require("@repo/src/renderers/resolveConfiguredRenderStrategy.ts"),
});
