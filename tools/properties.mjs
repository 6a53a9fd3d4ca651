// Source of properties.jsonl (node tools/properties.mjs > properties.jsonl)
const P = [];
const add = (id, title, statement, over, text, why, files, mechanism, observe_at, state) =>
	P.push({
		id, title, statement,
		quantifier: { over, text },
		why_tests_cant: why,
		anchors: {
			files,
			mechanism: mechanism.map(([name, where]) => ({ name, where })),
			...(state ? { state: state.map(([name, meaning, where]) => ({ name, meaning, where })) } : {}),
			...(observe_at ? { observe_at } : {}),
			hook_needed: null,
		},
	});

const R = "src/renderers/jsx/renderer.ts";
const RS = "src/renderers/jsx/IgniteJsxRenderStrategy.ts";
const EL = "src/IgniteElement.ts";
const EF = "src/IgniteElementFactory.ts";
const CF = "src/createComponentFactory.ts";
const AX = "src/adapters/XStateAdapter.ts", AR = "src/adapters/ReduxAdapter.ts", AM = "src/adapters/MobxAdapter.ts";

add("C01", "Re-rendering converges to what a first render would show",
	"After any sequence of JSX views has been shown by an element, its content is the same as if only the last view had ever been rendered into an empty element: same nodes, text, attributes, live form values, inline styles and namespaces. This holds whichever in-place update or rebuild the renderer chose at each step. An empty style attribute and the text inside placeholder comments do not count as content.",
	["histories", "inputs"], "for every finite sequence of views",
	"Tests render a dozen hand-picked pairs of views; the property quantifies over every sequence of views, and in-place patching fails only for particular (previous, next) combinations.",
	[R, RS], [["in-place child and prop patching with rebuild fallback", R], ["previous tree kept between renders", RS]],
	["the element's shadow root after each render"], [["previousTree", "normalised form of the last rendered view", RS]]);

add("C02", "A JSX view renders to exactly the content it describes",
	"Rendering a view into an empty element produces the DOM the view describes: elements, text and placeholders in order, with arrays, fragments and function components flattened, SVG content in the SVG namespace and foreign-object content back in HTML, and classes, styles, attributes and DOM properties as given, where null, undefined and false mean absent. The result does not depend on which of the JSX entry points (single child, static children, development) built the view, apart from the invisible placeholder of a lone empty child. Building or rendering a view never modifies the props or view objects it is given, so the same view can be rendered again or elsewhere.",
	["inputs"], "for every view and every JSX entry point",
	"Tests check a few example elements; the mapping must hold for every nesting of components, fragments, arrays, namespaces and prop values.",
	[R, "src/renderers/jsx/jsx-runtime.ts", "src/renderers/jsx/types.ts"],
	[["view normalisation and DOM creation", R], ["element construction", "src/renderers/jsx/jsx-runtime.ts"]], ["the element's shadow root after its first render"]);

add("C03", "Incremental re-rendering keeps the live nodes the user is interacting with",
	"In the default incremental mode, re-rendering a view that differs from the previous one only in attribute values, handlers, text, or children appended at the end of some child list keeps every existing DOM node in its place, so focus and element-held state survive; only a child list whose items merely changed places may be rebuilt instead. Typed text and toggled checkboxes are overwritten only when the state's own value for that control changed, and text is never overwritten while an input method composition is in progress. When a child list has to be rebuilt, only that list is rebuilt: its parent element, the parent's ancestors and every node outside it are kept.",
	["histories", "inputs"], "for every pair and triple of successive views and every user edit in between",
	"Tests check identity for one input and one list; whether a node survives depends on the exact (previous, next) pair and on the edit made in between.",
	[R], [["append-only compatibility test and in-place patch", R], ["value/checked guard", R]], ["node identity, focus and form values in the shadow root"]);

add("C04", "Exactly the handlers of the current view fire, once each",
	"After any sequence of rendered views, dispatching an event at a rendered element runs exactly the handler that the latest view attaches to that element for that event, once, and no handler of any earlier view. An on-prop named in camel case, upper case or with separators listens to the corresponding lower-case hyphenated event name. Values that are not functions attach nothing.",
	["histories", "inputs"], "for every sequence of views with changing handlers",
	"Tests swap one handler on one element; leaks and stacked listeners need particular add/keep/swap/remove/rebuild histories.",
	[R], [["listener add/remove on prop change", R], ["event name normalisation", R]], ["which callbacks run when an event is dispatched"]);

add("C05", "Rebuild mode rebuilds everything, and rebuilds are reported as configured",
	"When incremental rendering is switched off (replace strategy, disabled by environment flag, opt-out or hydration attribute on the host, or a deny-listed host tag) every re-render rebuilds the whole content and the result still equals a first render; a deny-listed tag inside a view is rebuilt on every render while the nodes around it are kept. Each rebuild the renderer performs instead of patching is reported with its reason at the configured logging level: not at all when off or unknown, as a warning or a debug message otherwise. A render that only patched in place reports nothing.",
	["configurations", "histories"], "for every combination of strategy, logging level, flag, host marking and deny-list, and every sequence of views",
	"Tests fix one configuration each and a single re-render; the guarantee spans the full cross product with view histories.",
	[RS, R, "src/renderers/jsx/noDiffDenylist.ts", "src/config.ts"], [["mode resolution and fallback logging", RS], ["deny-list", "src/renderers/jsx/noDiffDenylist.ts"]], ["node identity and console output"]);

add("C06", "A connected element always shows its source's current state",
	"Whenever no event is being processed, every connected element shows the rendering of its own source's current state, whatever the history of events, commands, outside changes to the source, timers, and of elements being created, inserted, moved or removed before or in the middle of those changes. This holds for every kind of source (state machine, running actor, slice, store, store factory, observable, observable factory, custom adapter) and for both renderers. Elements with private state are covered until they are first removed from the document; elements over a shared source for their whole life.",
	["histories", "schedules"], "for every history of lifecycle and state operations, including operations performed inside change notifications",
	"Tests send one or two events to one or two permanently mounted elements; staleness shows only after particular orders of subscribe, change, unsubscribe and remount, often re-entrantly.",
	[EL, EF, AX, AR, AM], [["subscription and render on notify", EL], ["shared adapter acquisition", EF], ["notification fan-out", AX]], ["the text shown in each shadow root versus the source's state"],
	[["currentState", "last state received by the element", EL], ["sharedInstanceCount", "connected elements per registration", EF]]);

add("C07", "An element that left the document goes quiet",
	"From the moment an element is removed from the document, even in the middle of a state change notification, it does not render again and ignores every event dispatched on it or passed to a send function it handed out earlier, so neither its own nor any other source changes. This stays true until it is inserted again, for every kind of source and both renderers. Nothing in this throws.",
	["histories", "schedules"], "for every history, including removal during a notification",
	"Tests remove an element once while idle; late deliveries need removal from inside another listener's notification, or sends through stale references.",
	[EL, EF, AR], [["active flag, listener removal, unsubscribe on disconnect", EL]], ["render calls, shadow root content and source state after removal"]);

add("C08", "Elements with private state never influence each other",
	"When the source is a blueprint (machine, slice, store factory, observable factory or a per-element adapter), every element starts from the blueprint's initial state and only its own events, commands and timers change it. Creating, using or removing one element never changes what any other element holds or shows, across instances, tags and registrations of the same blueprint.",
	["histories", "configurations"], "for every history over up to three elements in one or two tags",
	"Tests compare two elements after one event each; leakage through shared defaults, caches or renderer instances needs interleaved histories.",
	[EF, AX, AR, AM, CF], [["one adapter per element", EF], ["per-adapter registry for facades", AX]], ["state shown by each element"]);

add("C09", "A shared source is held exactly while needed and never harmed",
	"Components over one long-lived source stay live while at least one of their elements is connected; when the last one leaves, the subscription to the source is released (the adapter stopped exactly once) unless cleanup is turned off, in which case the adapter is never stopped. The actor, store or observable supplied by the user is itself never stopped or altered by this. Elements inserted, re-inserted or moved afterwards work again and show the current state.",
	["histories", "configurations"], "for every history of creating, inserting, moving and removing elements of one or two tags over one source, with cleanup on or off",
	"Tests do one mount and one unmount; counting errors and dead adapters appear on moves, overlapping tags, elements created but not inserted, and remounts.",
	[EF, EL, AX, AR, AM], [["reference count and release", EF], ["ownership of the actor", AX]], ["subscriptions held on the source, stop calls, display after remount"],
	[["sharedInstanceCount", "connected elements over the shared adapter", EF]]);

add("C10", "Every event handed to a connected element is applied once, unaltered, in order",
	"While an element is connected, each event handed to it, dispatched as a send event on the host, bubbling out of its rendered content, or passed to the send function from any of its renders, is applied to its own source exactly once, in order, with the payload unchanged. This does not depend on how often the element was moved, removed and re-inserted before, or on how many other elements exist. A plain send event without details is passed on itself.",
	["histories", "inputs"], "for every history of connects, moves, removals and sends",
	"Tests dispatch a single send event; duplicates or losses need reconnects and moves in between.",
	[EL, EF, AR, AM, AX], [["send listener registration", EL], ["event forwarding", AR]], ["the sequence of events the source received"]);

add("C11", "Removing an element releases everything it privately owned",
	"When an element with private state leaves the document, the machine it created is stopped, its timers and delayed transitions never fire again, and nothing of it stays subscribed to its store or observable; the state it last showed is what it keeps. Other elements' machines, timers and subscriptions continue unaffected. Each private resource is released exactly once.",
	["histories", "schedules"], "for every history of inserts, removals, events and time steps",
	"Tests check one stop call; leaked timers show only when time passes after particular removal points.",
	[EL, AX, AR, AM], [["stop on disconnect", EL], ["owned actor stop", AX]], ["machine status, pending timers, source subscribers"]);

add("C12", "State adapters honour one contract under every call sequence",
	"For each supported source an adapter reports the current state to a new subscriber at once and every later state to each current subscriber, and nothing to a subscriber after it unsubscribed or after the adapter was stopped, even when that happens inside a notification. After stopping, reads return the state at the time of stopping, events are ignored, stopping again or unsubscribing late is harmless, and a user-owned source keeps working. Two adapters over the same source do not affect each other's subscribers.",
	["histories", "schedules"], "for every sequence of subscribe, unsubscribe, send, outside change, read and stop calls",
	"Tests exercise one or two fixed sequences per adapter.",
	[AX, AR, AM], [["listener set and lazy source subscription", AX], ["autorun lifecycle", AM], ["unsubscriber set", AR]], ["listener invocations and returned states"]);

add("C13", "Derived state is always computed from the element's current state",
	"Every render receives, for each key declared by the component's states callback, the value that callback gives for the state of that element's own source at that moment, and whenever no event is being processed the values last received by a connected element are current. Each render receives the full declared set together with the state, the send function and the commands, and a derived value never replaces state or send. This holds for every source kind, shared or private, and across moves and re-insertions of shared elements.",
	["histories"], "for every history of changes and reads, per source kind and scope",
	"Tests read one derived value after one change.",
	[CF, AX, AR, AM], [["getter facade over latest snapshot", CF], ["snapshot resolution per adapter", AX]], ["values seen by the render function"]);

add("C14", "Commands act on their own element; emitted events leave it once",
	"A command changes only the source of the element it belongs to, and an event it emits is dispatched exactly once on that element's host, bubbling and crossing shadow boundaries, carrying the given detail, in program order with the state changes around it, whatever other elements exist or have been removed. Outside production, emitting an undeclared event throws and dispatches nothing; in production it is dispatched. A states or commands callback that does not return the required shape is rejected with an error when an element is created and registers no half-working element.",
	["histories", "configurations", "inputs"], "for every history of command calls over several elements, event names, nesting and environment mode",
	"Tests emit one event from one element.",
	[CF], [["emit bound to host", CF], ["facade validation", CF]], ["events observed at host, ancestors and document; source state"]);

add("C15", "Sources are recognised for what they are",
	"A source given without naming its library is treated by what it is: machines, slices and factories give each element private state, while actors, stores and observables are shared; naming the library explicitly gives the same result as inference. A value that is none of these, a factory returning something else, a factory that throws during inference, and an unknown library name are rejected with an error and never half-registered. Deciding this never changes or starts consuming a user's store or observable.",
	["inputs", "configurations"], "for every shape of source crossed with explicit or inferred library",
	"Tests sample one source of each kind; look-alike and partial shapes are not enumerated.",
	["src/IgniteCore.ts", "src/igniteCore/redux.ts", "src/igniteCore/xstate.ts", "src/igniteCore/mobx.ts", "src/utils/adapterGuards.ts", "src/utils/mobxGuards.ts"],
	[["adapter inference", "src/IgniteCore.ts"], ["structural guards", "src/utils/adapterGuards.ts"]], ["whether elements share state, or the error thrown"]);

add("C16", "Every component root gets the configured stylesheet exactly once",
	"Once a configuration with a stylesheet has been loaded, every component root, created before or after, connected or not, with either renderer, contains exactly one link to it with the configured integrity and cross-origin values, and later renders and re-insertions neither remove nor duplicate it. A root that already has its stylesheet keeps it when the configuration changes later; roots created afterwards get the new one. A plain style path that is not a stylesheet adds no link.",
	["schedules", "histories", "configurations"], "for every interleaving of element creation, insertion, rendering, style setting and configuration loading",
	"Tests inject once into one prepared root; late loading combined with renders is not explored.",
	["src/injectStyles.ts", "src/globalStyles.ts", "src/config/loadIgniteConfig.ts", "src/renderers/LitRenderStrategy.ts", RS], [["pending roots flushed on load", "src/injectStyles.ts"], ["per-root cache", "src/injectStyles.ts"]], ["link elements in each shadow root"],
	[["pendingRoots", "roots created before styles were known", "src/injectStyles.ts"]]);

add("C17", "Loading a configuration applies all of it before it reports success",
	"When loading a configuration resolves, the normalised configuration it returns is the active one, its stylesheet has reached waiting roots and its renderer is available to components registered from then on, whichever module shape (default export or plain object) it came in. A failing loader or an invalid configuration rejects with the original error and leaves the previous configuration in force; a module without a configuration resolves to nothing and changes nothing. Overlapping loads end with the configuration whose module arrived last.",
	["schedules", "inputs", "fault_sequences"], "for every order in which overlapping loads, failures, registrations and element creations can happen, at every microtask boundary",
	"Tests await one load at a time.",
	["src/config/loadIgniteConfig.ts", "src/config.ts"], [["load, define, flush, import renderer", "src/config/loadIgniteConfig.ts"], ["normalisation", "src/config.ts"]], ["returned value, active configuration, renderer used by new components"]);

add("C18", "A component uses the renderer configured when it was registered",
	"A component renders with the strategy passed explicitly, otherwise with the renderer configured at the time its factory was created if that renderer is available, otherwise with the built-in JSX renderer after a warning; later configuration changes never alter components already created. The choice does not depend on the order in which renderer modules were imported or re-registered before. If no renderer at all is available, creating a component fails with an error.",
	["configurations", "histories"], "for every sequence of configuring, registering renderers and creating components",
	"Tests check three fixed situations.",
	["src/renderers/resolveConfiguredRenderStrategy.ts", "src/config.ts", EF], [["global registry lookup with fallback", "src/renderers/resolveConfiguredRenderStrategy.ts"]], ["which renderer produced an element's content"]);

add("C19", "The Vite plugin injects a loader for the right config file, or nothing",
	"For every project layout the plugin injects one module script that first loads the configuration helper and then the chosen configuration file, at the requested position, with an import path that resolves to exactly that file from the page it is injected into, in development and in a production build; the explicit path wins, otherwise the first existing default name in documented order. When no configuration file exists nothing is injected. The result does not depend on whether the root is given up front or by Vite, and repeated calls give the same answer.",
	["configurations", "inputs"], "for every set of present config files, root, explicit path form and hook order",
	"Tests try a few layouts; path forms (nested, hidden directories, outside the root, spaces) are not enumerated.",
	["src/plugins/viteIgniteConfigPlugin.ts", "src/plugins/configFile.ts"], [["import specifier computation", "src/plugins/viteIgniteConfigPlugin.ts"], ["config discovery", "src/plugins/configFile.ts"]], ["the returned tags, their import specifiers resolved on disk"]);

add("C20", "The webpack plugin loads the configuration first in every entry",
	"After the plugin is applied, every entry of the build (string, list, named map of strings, lists or descriptors, webpack's default entry, or function returning any of these, also asynchronously) starts with exactly one loader module for the chosen configuration file and is otherwise unchanged, keeping order, names and other options. Applying it again changes nothing more, the user's own entry objects are not modified, and without a configuration file nothing changes. The loader names exactly the chosen file, whatever characters its path contains.",
	["inputs", "configurations"], "for every entry shape up to the bound and every config layout",
	"Tests cover one entry per shape and one application.",
	["src/plugins/webpackIgniteConfigPlugin.ts", "src/plugins/configFile.ts"], [["entry rewriting", "src/plugins/webpackIgniteConfigPlugin.ts"]], ["compiler.options.entry after apply"]);

add("C21", "The library can be imported without a DOM and never replaces an existing one",
	"Every entry point can be imported, in any order and combination, in a runtime with none, some or all of the DOM globals, and components can be registered there without throwing; loading a configuration there applies it. Where the runtime already provides the element base class or registry, they are left untouched, and repeated imports change nothing further. Importing never triggers rendering or other side effects on existing elements.",
	["configurations", "histories"], "for every subset of pre-existing DOM globals and every import order of the entry points",
	"Tests check two environments and a single import order.",
	["src/internal/setupDomPolyfill.ts", "src/index.ts", "src/xstate.ts", "src/redux.ts", "src/mobx.ts", "src/renderers/ignite-jsx.ts", "src/renderers/lit.ts"], [["conditional stubs", "src/internal/setupDomPolyfill.ts"]], ["globals before and after import; absence of exceptions"]);

add("C22", "Registration is all-or-nothing and each element has its renderer",
	"Registering a tag with a render function, an object with a render method or a class with a render method makes every element of that tag show what that renderer returns, with the renderer's own receiver intact; private-state elements each get their own class instance. Registering an already used tag throws and leaves the earlier component working exactly as before, and a renderer that is neither a function nor has a render method is rejected with an error and registers nothing. Several tags registered from one factory work independently.",
	["histories", "configurations"], "for every sequence of registrations (valid, duplicate, invalid) and element uses",
	"Tests check each renderer kind once.",
	[EF], [["renderer resolution", EF], ["duplicate check", EF]], ["thrown errors and content of elements"]);

add("C23", "The beta release script publishes only after every gate passed",
	"The release script publishes at most once, and only if the working tree was clean, npm authentication worked and the status, test, build, version and install steps all succeeded, in that order, before it; as soon as one of them fails it stops with a non-zero exit status and runs nothing further. A dry run never publishes for real. It reports success only if the publish step succeeded. The one-time password comes from the option, else the environment, else the prompt; one given by option or prompt is passed to the publish step only, and none is ever printed.",
	["fault_sequences", "configurations"], "for every combination of step failures, flags, environment and prompt answers",
	"Nothing tests this script.",
	["scripts/release-beta.mjs"], [["sequential steps with abort", "scripts/release-beta.mjs"]], ["commands executed, their environment, exit status and output"]);

add("C24", "Refreshing the npm token never leaks it and never reports false success",
	"The token refresh stores the newly created token in the repository secret named by the environment, authenticated with the GitHub token, exactly once, and resolves only if GitHub accepted it; every failure (token creation, missing environment, network, refused update) rejects with the original error. Neither the new token nor the GitHub token ever appears in anything it prints. Nothing is sent to GitHub when the token could not be created or the environment is incomplete.",
	["fault_sequences", "configurations"], "for every combination of environment, command and network outcomes",
	"Tests cover the success path and three failures with loose assertions on output.",
	["scripts/refresh-npm-token.js"], [["create, validate, update", "scripts/refresh-npm-token.js"]], ["console output, requests made, settlement of the promise"]);

for (const p of P) console.log(JSON.stringify(p));
