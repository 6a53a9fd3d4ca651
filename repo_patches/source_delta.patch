From 389511418718c93f3bfc734962d6accd24019b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:58 +0000
Subject: [PATCH 01/37] fix: clear inline style properties whose next value is
 null, undefined or invalid

---
 src/renderers/jsx/renderer.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index ed642d6..ce0009a 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -425,10 +425,12 @@ function patchStyle(element: HTMLElement, prev: unknown, next: unknown): void {
 		}
 
 		for (const [key, value] of Object.entries(nextObj)) {
-			if (value != null) {
-				const cssProperty = toKebabCase(key);
-				const nextValue = String(value);
-				if (style.getPropertyValue(cssProperty) !== nextValue) {
+			const cssProperty = toKebabCase(key);
+			const nextValue = value != null ? String(value) : "";
+			if (style.getPropertyValue(cssProperty) !== nextValue) {
+				// Clear first: setProperty ignores values it cannot parse.
+				style.removeProperty(cssProperty);
+				if (nextValue) {
 					style.setProperty(cssProperty, nextValue);
 				}
 			}
-- 
2.43.0


From 4ddd039df99fa4cede2563f0af8a7ff229ff994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:53 +0000
Subject: [PATCH 02/37] fix: removing a JSX prop restores the native property
 instead of writing undefined

---
 src/renderers/jsx/renderer.ts | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index ce0009a..06c8167 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -20,6 +20,12 @@ const CAMEL_CASE_SVG_ATTRS = new Set([
 	"lengthAdjust",
 ]);
 
+const PROPERTY_ATTRIBUTES: Record<string, string> = {
+	htmlFor: "for",
+	httpEquiv: "http-equiv",
+	acceptCharset: "accept-charset",
+};
+
 type NormalizedNode =
 	| {
 			kind: "element";
@@ -488,6 +494,11 @@ function removeProp(
 	prev: unknown,
 	isSvg: boolean,
 ): void {
+	if (prev === false || prev === null || prev === undefined) {
+		// Nothing was applied for an empty value, so there is nothing to undo.
+		return;
+	}
+
 	if (key === "class" || key === "className") {
 		element.removeAttribute("class");
 		return;
@@ -504,15 +515,27 @@ function removeProp(
 		return;
 	}
 
-	if (!isSvg && key in element && key !== "list") {
-		// Reset property to undefined to avoid stale values.
-		Reflect.set(element as HTMLElement, key, undefined);
-	}
-
-	const attrName = isSvg ? normalizeSvgAttributeName(key) : key;
+	const attrName = isSvg
+		? normalizeSvgAttributeName(key)
+		: (PROPERTY_ATTRIBUTES[key] ?? key);
 	if (element.hasAttribute(attrName)) {
+		// Reflected properties follow their attribute.
 		element.removeAttribute(attrName);
+		return;
 	}
+
+	if (!isSvg && key in element && key !== "list") {
+		// Reset property to avoid stale values.
+		Reflect.set(element as HTMLElement, key, emptyPropertyValue(element, key));
+	}
+}
+
+function emptyPropertyValue(element: Element, key: string): unknown {
+	// `undefined` would be stringified by native string properties (e.g. value).
+	const isNative = !element.localName.includes("-");
+	return isNative && typeof Reflect.get(element, key) === "string"
+		? ""
+		: undefined;
 }
 
 function applyProperty(
-- 
2.43.0


From 264c03cbb3433c51b1a08f4c4f146bbc2a2ed389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:34 +0000
Subject: [PATCH 03/37] fix: assign reflected JSX properties even when they
 equal the element default

---
 src/renderers/jsx/renderer.ts | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 06c8167..f3afe20 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -543,7 +543,10 @@ function applyProperty(
 	key: string,
 	value: unknown,
 ): void {
-	if (key === "value" || key === "checked") {
+	if (
+		(key === "value" || key === "checked") &&
+		(element.localName === "input" || element.localName === "textarea")
+	) {
 		const current = Reflect.get(element, key);
 		if (current !== value && !(isComposingInput(element) && key === "value")) {
 			Reflect.set(element, key, value);
@@ -551,10 +554,9 @@ function applyProperty(
 		return;
 	}
 
-	const current = Reflect.get(element, key);
-	if (current !== value) {
-		Reflect.set(element, key, value);
-	}
+	// Written even when it equals the current value: a reflected property only
+	// creates its attribute (type="text", alt="", ...) when it is assigned.
+	Reflect.set(element, key, value);
 }
 
 function isComposingInput(element: HTMLElement): boolean {
-- 
2.43.0


From 75a6a3afd5d791efdcf1c2e9aa88b39348d9ff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:00 +0000
Subject: [PATCH 04/37] fix: give a JSX select its value once its options are
 rendered

---
 src/renderers/jsx/renderer.ts | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index f3afe20..9a09849 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -245,6 +245,7 @@ function patchNode(
 	}
 
 	const elementNode = domNode as Element & ParentNode;
+	const shownValue = selectValue(elementNode);
 
 	patchProps(elementNode, oldNode.props, newNode.props);
 
@@ -276,6 +277,15 @@ function patchNode(
 		}
 	}
 
+	// Keep the user's choice unless the state or the options moved under it.
+	if (
+		shownValue === undefined ||
+		oldNode.props.value !== newNode.props.value ||
+		selectValue(elementNode) !== shownValue
+	) {
+		applySelectValue(elementNode, newNode.props);
+	}
+
 	return domNode;
 }
 
@@ -297,6 +307,7 @@ function createDomFromNormalized(node: NormalizedNode): ChildNode {
 			for (const child of node.children) {
 				element.appendChild(createDomFromNormalized(child));
 			}
+			applySelectValue(element, node.props);
 			return element;
 		}
 	}
@@ -559,6 +570,27 @@ function applyProperty(
 	Reflect.set(element, key, value);
 }
 
+/** The value a select shows, if it is a select with an option selected. */
+function selectValue(element: Element): string | undefined {
+	return element.localName === "select" &&
+		(element as HTMLSelectElement).selectedIndex >= 0
+		? (element as HTMLSelectElement).value
+		: undefined;
+}
+
+/** A select can only take its value once its options exist. */
+function applySelectValue(element: Element, props: IgniteJsxProps): void {
+	const { value } = props;
+	if (
+		element.localName === "select" &&
+		value !== undefined &&
+		value !== null &&
+		value !== false
+	) {
+		Reflect.set(element, "value", value);
+	}
+}
+
 function isComposingInput(element: HTMLElement): boolean {
 	return (
 		"isComposing" in element &&
-- 
2.43.0


From fbbdb175046a3319b3fe44353f1bdcb05353e0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 05/37] fix: shared components work again after their last
 element was removed

Once the last connected element left, the shared adapter was stopped for
good: elements inserted, re-inserted or moved afterwards threw (XState,
MobX) or stayed dead (Redux). The adapter factories now build a new
adapter over the same source, and elements pick it up when connected.
---
 src/IgniteElement.ts          | 10 ++++++++
 src/IgniteElementFactory.ts   |  9 ++++---
 src/adapters/MobxAdapter.ts   | 18 +++++++++-----
 src/adapters/ReduxAdapter.ts  | 45 ++++++++++++++++++++---------------
 src/adapters/XStateAdapter.ts | 17 +++++++++----
 5 files changed, 65 insertions(+), 34 deletions(-)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index eb30fdf..46d7c74 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -137,6 +137,16 @@ export default abstract class IgniteElement<
 		this._currentState = state;
 	}
 
+	protected adoptAdapter(adapter: IgniteAdapter<State, Event>): void {
+		if (this._adapter === adapter) {
+			return;
+		}
+
+		this._unsubscribe?.();
+		this._unsubscribe = undefined;
+		this._adapter = adapter;
+	}
+
 	private subscribeToAdapter(): void {
 		if (!this._adapter) {
 			return;
diff --git a/src/IgniteElementFactory.ts b/src/IgniteElementFactory.ts
index 4479722..1fef282 100644
--- a/src/IgniteElementFactory.ts
+++ b/src/IgniteElementFactory.ts
@@ -160,11 +160,7 @@ export default function igniteElementFactory<
 			resolveSharedResources();
 
 			class SharedIgniteComponent extends IgniteElement<State, Event, View> {
-				private readonly additionalArgs: AdditionalRenderArgs<
-					State,
-					Event,
-					RenderArgs
-				>;
+				private additionalArgs: AdditionalRenderArgs<State, Event, RenderArgs>;
 
 				constructor() {
 					const { adapter } = resolveSharedResources();
@@ -174,6 +170,9 @@ export default function igniteElementFactory<
 
 				connectedCallback(): void {
 					sharedInstanceCount += 1;
+					// The adapter this element was created with may have been released since.
+					this.adoptAdapter(resolveSharedResources().adapter);
+					this.additionalArgs = resolveSharedAdditionalArgs(this);
 					super.connectedCallback();
 				}
 
diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index 1da9536..ba5d79e 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -42,17 +42,16 @@ type AdapterEntry<State extends object> = {
 	adapter: IgniteAdapter<State, MobxEvent<State>>;
 	snapshot: () => State;
 	store: State;
+	isStopped: () => boolean;
 };
 
 export default function createMobXAdapter<State extends object>(
 	source: (() => State) | State,
 ): MobxAdapterFactory<State> {
 	if (isMobxObservable(source)) {
-		const entry = createAdapterEntryFromStore(
-			source as State,
-			StateScope.Shared,
+		return createSharedFactory(() =>
+			createAdapterEntryFromStore(source as State, StateScope.Shared),
 		);
-		return createSharedFactory(entry);
 	}
 
 	if (typeof source === "function") {
@@ -73,9 +72,15 @@ export default function createMobXAdapter<State extends object>(
 }
 
 function createSharedFactory<State extends object>(
-	entry: AdapterEntry<State>,
+	createEntry: () => AdapterEntry<State>,
 ): MobxAdapterFactory<State> {
-	const factory = (() => entry.adapter) as MobxAdapterFactory<State>;
+	let entry = createEntry();
+	const factory = (() => {
+		if (entry.isStopped()) {
+			entry = createEntry();
+		}
+		return entry.adapter;
+	}) as MobxAdapterFactory<State>;
 	factory.scope = StateScope.Shared;
 	factory.resolveStateSnapshot = () => entry.snapshot();
 	factory.resolveCommandActor = () => entry.store;
@@ -229,5 +234,6 @@ function createAdapterEntryFromStore<State extends object>(
 		adapter,
 		snapshot,
 		store,
+		isStopped: () => isStopped,
 	};
 }
diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 4974a77..5113efe 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -46,6 +46,7 @@ const buildAdapter = <
 >(
 	store: Store,
 	scope: StateScope,
+	onStop?: () => void,
 ): IgniteAdapter<ReturnType<Store["getState"]>, Event> => {
 	type State = ReturnType<Store["getState"]>;
 
@@ -101,6 +102,7 @@ const buildAdapter = <
 		stop() {
 			cleanupSubscriptions();
 			isStopped = true;
+			onStop?.();
 		},
 		scope,
 	};
@@ -109,17 +111,26 @@ const buildAdapter = <
 };
 
 function createSharedFactory<State, Event, Snapshot, Actor>(
-	entry: AdapterEntry<State, Event, Snapshot, Actor>,
+	createEntry: (
+		onStop: () => void,
+	) => AdapterEntry<State, Event, Snapshot, Actor>,
 ): AdapterFactory<State, Event, Snapshot, Actor> {
-	const factory = (() => entry.adapter) as AdapterFactory<
+	let entry: AdapterEntry<State, Event, Snapshot, Actor> | null = null;
+	const resolveEntry = () => {
+		entry ??= createEntry(() => {
+			entry = null;
+		});
+		return entry;
+	};
+	const factory = (() => resolveEntry().adapter) as AdapterFactory<
 		State,
 		Event,
 		Snapshot,
 		Actor
 	>;
 	factory.scope = StateScope.Shared;
-	factory.resolveStateSnapshot = () => entry.snapshot();
-	factory.resolveCommandActor = () => entry.actor;
+	factory.resolveStateSnapshot = () => resolveEntry().snapshot();
+	factory.resolveCommandActor = () => resolveEntry().actor;
 	return factory;
 }
 
@@ -200,15 +211,6 @@ export default function createReduxAdapter<
 		type State = InferStateAndEvent<StoreInstance>["State"];
 		type Event = InferStateAndEvent<StoreInstance>["Event"];
 
-		const adapter = adaptEvent<
-			State,
-			Parameters<StoreInstance["dispatch"]>[0],
-			Event
-		>(
-			buildAdapter(store, StateScope.Shared),
-			(event) => event as Parameters<StoreInstance["dispatch"]>[0],
-		);
-
 		const dispatch: ReduxStoreCommandActor<StoreInstance>["dispatch"] = (
 			event,
 		) =>
@@ -223,18 +225,23 @@ export default function createReduxAdapter<
 			) as ReduxStoreCommandActor<StoreInstance>["subscribe"],
 		};
 
-		const entry: AdapterEntry<
+		return createSharedFactory<
 			State,
 			Event,
 			State,
 			ReduxStoreCommandActor<StoreInstance>
-		> = {
-			adapter,
+		>((onStop) => ({
+			adapter: adaptEvent<
+				State,
+				Parameters<StoreInstance["dispatch"]>[0],
+				Event
+			>(
+				buildAdapter(store, StateScope.Shared, onStop),
+				(event) => event as Parameters<StoreInstance["dispatch"]>[0],
+			),
 			snapshot: () => store.getState() as State,
 			actor,
-		};
-
-		return createSharedFactory(entry);
+		}));
 	}
 
 	if (isStoreFactory(source)) {
diff --git a/src/adapters/XStateAdapter.ts b/src/adapters/XStateAdapter.ts
index 07f9d2f..9147f23 100644
--- a/src/adapters/XStateAdapter.ts
+++ b/src/adapters/XStateAdapter.ts
@@ -46,6 +46,7 @@ type AdapterEntry<Machine extends AnyStateMachine> = {
 	snapshot: () => StateFrom<Machine>;
 	actor: XStateActorInstance<Machine>;
 	commandActor: XStateCommandActor<Machine>;
+	isStopped: () => boolean;
 };
 
 export default function createXStateAdapter<Machine extends AnyStateMachine>(
@@ -54,8 +55,9 @@ export default function createXStateAdapter<Machine extends AnyStateMachine>(
 	if (isXStateActor(source)) {
 		const actor = source as XStateActorInstance<Machine>;
 		actor.start();
-		const entry = createAdapterEntry(actor, StateScope.Shared, false);
-		return createSharedFactory(entry);
+		return createSharedFactory(() =>
+			createAdapterEntry(actor, StateScope.Shared, false),
+		);
 	}
 
 	const machine = source as Machine;
@@ -67,9 +69,15 @@ export default function createXStateAdapter<Machine extends AnyStateMachine>(
 }
 
 function createSharedFactory<Machine extends AnyStateMachine>(
-	entry: AdapterEntry<Machine>,
+	createEntry: () => AdapterEntry<Machine>,
 ): XStateAdapterFactory<Machine> {
-	const factory = (() => entry.adapter) as XStateAdapterFactory<Machine>;
+	let entry = createEntry();
+	const factory = (() => {
+		if (entry.isStopped()) {
+			entry = createEntry();
+		}
+		return entry.adapter;
+	}) as XStateAdapterFactory<Machine>;
 	factory.scope = StateScope.Shared;
 	factory.resolveStateSnapshot = () => entry.snapshot();
 	factory.resolveCommandActor = () => entry.commandActor;
@@ -243,5 +251,6 @@ function createAdapterEntry<Machine extends AnyStateMachine>(
 		snapshot,
 		actor,
 		commandActor,
+		isStopped: () => isStopped,
 	};
 }
-- 
2.43.0


From e755c03b9fa93c498f6443b78b9a5b7fedd7e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:38 +0000
Subject: [PATCH 06/37] fix: the Redux adapter never notifies a listener after
 it unsubscribed

Redux calls every listener registered when the dispatch began, so a
listener removed by another one during a notification (or by stopping the
adapter there) was still called once more.
---
 src/adapters/ReduxAdapter.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 5113efe..09d1aa2 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -70,7 +70,10 @@ const buildAdapter = <
 
 			listener(store.getState());
 			const storeUnsubscribe = store.subscribe(() => {
-				listener(store.getState());
+				// Redux still calls listeners removed during the current dispatch.
+				if (unsubscribers.has(unsubscribe)) {
+					listener(store.getState());
+				}
 			});
 
 			const unsubscribe = () => {
-- 
2.43.0


From 7a82f39c59d861c0d0caa69e649b1c27d0210c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:38 +0000
Subject: [PATCH 07/37] fix: a stopped Redux adapter reports the state at the
 time it was stopped

It reported the state after the last event sent through the adapter
itself, ignoring changes made by commands or directly on the store.
---
 src/adapters/ReduxAdapter.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 09d1aa2..fba4ed8 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -103,8 +103,12 @@ const buildAdapter = <
 			return isStopped ? lastKnownState : store.getState();
 		},
 		stop() {
+			if (isStopped) {
+				return;
+			}
 			cleanupSubscriptions();
 			isStopped = true;
+			lastKnownState = store.getState();
 			onStop?.();
 		},
 		scope,
-- 
2.43.0


From a418209839fa5c7366bb648476d5cfff1439786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:16 +0000
Subject: [PATCH 08/37] fix: Vite plugin imports config files in hidden
 directories by relative path

A config such as .config/ignite.config.ts was injected as the bare
specifier ".config/ignite.config.ts", which does not resolve.
---
 src/plugins/viteIgniteConfigPlugin.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/plugins/viteIgniteConfigPlugin.ts b/src/plugins/viteIgniteConfigPlugin.ts
index 2da021c..2215837 100644
--- a/src/plugins/viteIgniteConfigPlugin.ts
+++ b/src/plugins/viteIgniteConfigPlugin.ts
@@ -124,8 +124,7 @@ function getImportSpecifier(
 	if (root) {
 		const relativePath = relative(root, configPath);
 		if (relativePath && !relativePath.startsWith("..")) {
-			const normalized = toPosixPath(relativePath);
-			return normalized.startsWith(".") ? normalized : `./${normalized}`;
+			return `./${toPosixPath(relativePath)}`;
 		}
 	}
 
-- 
2.43.0


From 6185990423845a75ca884395999df0744b90b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:28 +0000
Subject: [PATCH 09/37] fix: do not print the new npm token when refreshing it

---
 scripts/refresh-npm-token.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/refresh-npm-token.js b/scripts/refresh-npm-token.js
index d64f4bb..41d690b 100644
--- a/scripts/refresh-npm-token.js
+++ b/scripts/refresh-npm-token.js
@@ -17,7 +17,7 @@ export default async function refreshNpmToken() {
 		const newToken = execSync("npm token create --read-only --publish", {
 			encoding: "utf8",
 		}).trim();
-		console.log("✅ New token generated successfully:", newToken);
+		console.log("✅ New token generated successfully.");
 
 		// Validate environment variables
 		const githubToken = process.env.GITHUB_TOKEN;
-- 
2.43.0


From 9a4cd242e6374e0d4c16ca3bfdfe4deaab3a7f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:49 +0000
Subject: [PATCH 10/37] fix: a stylesheet that arrives late survives
 re-rendering with lit

Roots created before the configuration was loaded got their link appended
after lit's content, where the next change of the root template removed
it for good.
---
 src/injectStyles.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/injectStyles.ts b/src/injectStyles.ts
index 883210d..8ccc8b9 100644
--- a/src/injectStyles.ts
+++ b/src/injectStyles.ts
@@ -88,7 +88,9 @@ export default function injectStyles(shadowRoot: ShadowRoot): void {
 			}
 		}
 
-		shadowRoot.appendChild(linkElement);
+		// Ahead of the rendered content: renderers keep what precedes it, but may
+		// replace anything that follows.
+		shadowRoot.insertBefore(linkElement, shadowRoot.firstChild);
 		shadowStyles.add(href);
 		debugLog(
 			DebugNamespace.LINK_ELEMENT,
-- 
2.43.0


From 65d5541a486a15b7bf72557b1dba07b746afa650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:42 +0000
Subject: [PATCH 11/37] fix: render a state change made while rendering after
 the current render

A child that dispatched an event from its connectedCallback started a
nested render of the component still being rendered: with Redux and custom
adapters that recursed without end or left stale content on screen.
---
 src/IgniteElement.ts | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index 46d7c74..b2715f1 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -12,6 +12,8 @@ export default abstract class IgniteElement<
 	private _currentState!: State;
 	private _initialized = false;
 	private _isActive = false;
+	private _isRendering = false;
+	private _renderRequested = false;
 	private _unsubscribe: (() => void) | undefined;
 	private _sendListener: ((event: globalThis.Event) => void) | undefined;
 	private readonly strategy: RenderStrategy<View>;
@@ -79,12 +81,28 @@ export default abstract class IgniteElement<
 			return;
 		}
 
-		this.strategy.render(
-			this.renderView({
-				state: this._currentState,
-				send: (event: Event) => this.send(event),
-			}),
-		);
+		// A state change caused by the render itself (for example by a child that
+		// sends an event when it is connected) is rendered once this one is done.
+		this._renderRequested = true;
+		if (this._isRendering) {
+			return;
+		}
+
+		this._isRendering = true;
+		try {
+			while (this._renderRequested && this._isActive) {
+				this._renderRequested = false;
+				this.strategy.render(
+					this.renderView({
+						state: this._currentState,
+						send: (event: Event) => this.send(event),
+					}),
+				);
+			}
+		} finally {
+			this._isRendering = false;
+			this._renderRequested = false;
+		}
 	}
 
 	protected abstract renderView(props: {
-- 
2.43.0


From 48deac6ad6120b45486da34c5717a429e928b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:47 +0000
Subject: [PATCH 12/37] fix: MobX adapters do not track what their listeners
 read

Listeners ran inside the autorun, so a component kept depending on the
stores of components it rendered or removed, and re-rendered for them.
---
 src/adapters/MobxAdapter.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index ba5d79e..f3339f9 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -1,5 +1,5 @@
 import type { IReactionDisposer } from "mobx";
-import { autorun, toJS } from "mobx";
+import { autorun, toJS, untracked } from "mobx";
 import type IgniteAdapter from "../IgniteAdapter";
 import { StateScope } from "../IgniteAdapter";
 import { isMobxObservable } from "../utils/mobxGuards";
@@ -150,7 +150,8 @@ function createAdapterEntryFromStore<State extends object>(
 		disposer = autorun(() => {
 			const snapshot = cloneState();
 			lastSnapshot = snapshot;
-			notifyListeners(snapshot);
+			// What listeners read (or create and dispose of) is not part of this store.
+			untracked(() => notifyListeners(snapshot));
 		});
 	}
 
-- 
2.43.0


From 8fff86999f7149232b4bef317e3302a8f5909175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:24 +0000
Subject: [PATCH 13/37] fix: emitting an undeclared event named like an Object
 method is rejected

---
 src/createComponentFactory.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/createComponentFactory.ts b/src/createComponentFactory.ts
index 776ec5c..fe3d7fa 100644
--- a/src/createComponentFactory.ts
+++ b/src/createComponentFactory.ts
@@ -244,7 +244,8 @@ export function createComponentFactoryWithRenderer<
 	const createEmit = (host: HTMLElement): EmitFromEvents<Events> =>
 		((type: keyof Events & string, detail: unknown) => {
 			if (isDevelopment()) {
-				if (!(type in eventDefinitions)) {
+				// biome-ignore lint/suspicious/noPrototypeBuiltins: supporting older JS targets without Object.hasOwn
+				if (!Object.prototype.hasOwnProperty.call(eventDefinitions, type)) {
 					throw new Error(
 						`[createComponentFactory] Unknown event "${type}". Declare it in the events map before emitting.`,
 					);
-- 
2.43.0


From a17bb7a353afd829d46ad384161b7d5e5b33db41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 14/37] fix: the Redux adapter can be stopped or used from a
 listener's first call

---
 src/adapters/ReduxAdapter.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index fba4ed8..e5ba453 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -68,7 +68,6 @@ const buildAdapter = <
 				return { unsubscribe: () => {} };
 			}
 
-			listener(store.getState());
 			const storeUnsubscribe = store.subscribe(() => {
 				// Redux still calls listeners removed during the current dispatch.
 				if (unsubscribers.has(unsubscribe)) {
@@ -84,6 +83,7 @@ const buildAdapter = <
 			};
 
 			unsubscribers.add(unsubscribe);
+			listener(store.getState());
 
 			return {
 				unsubscribe,
-- 
2.43.0


From 2c30f472e2e3c3536c17d60a20193b43df580183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:07 +0000
Subject: [PATCH 15/37] fix: the MobX adapter can be stopped or subscribed from
 a listener's first call

---
 src/adapters/MobxAdapter.ts | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index f3339f9..ba6c2a6 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -147,12 +147,18 @@ function createAdapterEntryFromStore<State extends object>(
 		if (disposer) {
 			return;
 		}
+		// New listeners are told the current state by subscribe().
+		let starting = true;
 		disposer = autorun(() => {
 			const snapshot = cloneState();
 			lastSnapshot = snapshot;
+			if (starting) {
+				return;
+			}
 			// What listeners read (or create and dispose of) is not part of this store.
 			untracked(() => notifyListeners(snapshot));
 		});
+		starting = false;
 	}
 
 	function cleanupAutorun() {
@@ -166,13 +172,9 @@ function createAdapterEntryFromStore<State extends object>(
 				throw new Error("Adapter is stopped and cannot subscribe.");
 			}
 
-			const wasRunning = disposer !== null;
 			listeners.add(listener);
 			ensureAutorun();
-
-			if (wasRunning) {
-				listener(lastSnapshot);
-			}
+			listener(cloneState());
 
 			return {
 				unsubscribe: () => {
-- 
2.43.0


From 24c76f045bd96c2ff929c3b5e77e0da407c9672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:20 +0000
Subject: [PATCH 16/37] fix: reject a source that is no machine or actor when
 the adapter is named xstate

---
 src/adapters/XStateAdapter.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/adapters/XStateAdapter.ts b/src/adapters/XStateAdapter.ts
index 9147f23..699c1de 100644
--- a/src/adapters/XStateAdapter.ts
+++ b/src/adapters/XStateAdapter.ts
@@ -7,7 +7,7 @@ import type {
 import { createActor } from "xstate";
 import type IgniteAdapter from "../IgniteAdapter";
 import { StateScope } from "../IgniteAdapter";
-import { isXStateActor } from "../utils/adapterGuards";
+import { isXStateActor, isXStateMachine } from "../utils/adapterGuards";
 
 export type ExtendedState<Machine extends AnyStateMachine> =
 	StateFrom<Machine> &
@@ -60,6 +60,12 @@ export default function createXStateAdapter<Machine extends AnyStateMachine>(
 		);
 	}
 
+	if (!isXStateMachine(source)) {
+		throw new Error(
+			"[XStateAdapter] Unsupported source. Provide an XState machine or actor.",
+		);
+	}
+
 	const machine = source as Machine;
 	return createIsolatedFactory(() => {
 		const actor = createActor(machine);
-- 
2.43.0


From f356eb1a406f8df1f6f53c0fe85eba2c375015f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:54 +0000
Subject: [PATCH 17/37] fix: keep the text of an input while an input method
 composition is in progress

---
 src/renderers/jsx/renderer.ts | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 9a09849..e3266da 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -303,6 +303,7 @@ function createDomFromNormalized(node: NormalizedNode): ChildNode {
 			const element = node.namespace
 				? document.createElementNS(node.namespace, node.tag)
 				: document.createElement(node.tag);
+			trackComposition(element);
 			patchProps(element, {}, node.props);
 			for (const child of node.children) {
 				element.appendChild(createDomFromNormalized(child));
@@ -535,6 +536,10 @@ function removeProp(
 		return;
 	}
 
+	if (key === "value" && isComposingInput(element)) {
+		return;
+	}
+
 	if (!isSvg && key in element && key !== "list") {
 		// Reset property to avoid stale values.
 		Reflect.set(element as HTMLElement, key, emptyPropertyValue(element, key));
@@ -591,10 +596,24 @@ function applySelectValue(element: Element, props: IgniteJsxProps): void {
 	}
 }
 
-function isComposingInput(element: HTMLElement): boolean {
+// Elements do not expose that an input method composition is in progress.
+const composingElements = new WeakSet<Element>();
+
+function trackComposition(element: Element): void {
+	if (element.localName === "input" || element.localName === "textarea") {
+		element.addEventListener("compositionstart", () => {
+			composingElements.add(element);
+		});
+		element.addEventListener("compositionend", () => {
+			composingElements.delete(element);
+		});
+	}
+}
+
+function isComposingInput(element: Element): boolean {
 	return (
-		"isComposing" in element &&
-		Boolean((element as HTMLElement & { isComposing?: boolean }).isComposing)
+		composingElements.has(element) ||
+		("isComposing" in element && Boolean(element.isComposing))
 	);
 }
 
-- 
2.43.0


From 0fd5338e569458f6c9c226aa65e3b6649442400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:47 +0000
Subject: [PATCH 18/37] fix: JSX props of read-only DOM properties such as form
 are set as attributes

---
 src/renderers/jsx/renderer.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index e3266da..93d5cac 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -572,7 +572,10 @@ function applyProperty(
 
 	// Written even when it equals the current value: a reflected property only
 	// creates its attribute (type="text", alt="", ...) when it is assigned.
-	Reflect.set(element, key, value);
+	if (!Reflect.set(element, key, value)) {
+		// Read-only properties (form, ...) are given by their attribute.
+		element.setAttribute(key, String(value));
+	}
 }
 
 /** The value a select shows, if it is a select with an option selected. */
-- 
2.43.0


From a3d67c9c90196224456bae47c663416f336012c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:01 +0000
Subject: [PATCH 19/37] fix: JSX text such as draggable="false" or width="100%"
 is not coerced away

---
 src/renderers/jsx/renderer.ts | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 93d5cac..ffb9d96 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -26,6 +26,9 @@ const PROPERTY_ATTRIBUTES: Record<string, string> = {
 	acceptCharset: "accept-charset",
 };
 
+// Attributes with values such as "false" or "no" whose property is a boolean.
+const ENUMERATED_ATTRIBUTES = new Set(["draggable", "spellcheck", "translate"]);
+
 type NormalizedNode =
 	| {
 			kind: "element";
@@ -570,6 +573,11 @@ function applyProperty(
 		return;
 	}
 
+	if (typeof value === "string" && isCoercedAway(element, key, value)) {
+		element.setAttribute(key, value);
+		return;
+	}
+
 	// Written even when it equals the current value: a reflected property only
 	// creates its attribute (type="text", alt="", ...) when it is assigned.
 	if (!Reflect.set(element, key, value)) {
@@ -578,6 +586,22 @@ function applyProperty(
 	}
 }
 
+/** Whether a native property would turn this text into something else. */
+function isCoercedAway(
+	element: HTMLElement,
+	key: string,
+	value: string,
+): boolean {
+	if (element.localName.includes("-")) {
+		return false;
+	}
+	const type = typeof Reflect.get(element, key);
+	return (
+		(type === "boolean" && ENUMERATED_ATTRIBUTES.has(key)) ||
+		(type === "number" && Number.isNaN(Number(value)))
+	);
+}
+
 /** The value a select shows, if it is a select with an option selected. */
 function selectValue(element: Element): string | undefined {
 	return element.localName === "select" &&
-- 
2.43.0


From 38f85ce294c5ebf8d4fc46b804aa6bbfbbb12f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:16 +0000
Subject: [PATCH 20/37] fix: camel case SVG attributes such as refX or
 gradientTransform keep their name

---
 src/renderers/jsx/renderer.ts | 49 +++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index ffb9d96..2a9e33f 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -18,6 +18,52 @@ const CAMEL_CASE_SVG_ATTRS = new Set([
 	"startOffset",
 	"textLength",
 	"lengthAdjust",
+	"attributeName",
+	"attributeType",
+	"baseFrequency",
+	"calcMode",
+	"diffuseConstant",
+	"edgeMode",
+	"filterUnits",
+	"glyphRef",
+	"gradientTransform",
+	"kernelMatrix",
+	"kernelUnitLength",
+	"keyPoints",
+	"keySplines",
+	"keyTimes",
+	"limitingConeAngle",
+	"markerHeight",
+	"markerUnits",
+	"markerWidth",
+	"maskContentUnits",
+	"maskUnits",
+	"numOctaves",
+	"pathLength",
+	"patternContentUnits",
+	"patternTransform",
+	"pointsAtX",
+	"pointsAtY",
+	"pointsAtZ",
+	"preserveAlpha",
+	"primitiveUnits",
+	"refX",
+	"refY",
+	"repeatCount",
+	"repeatDur",
+	"requiredExtensions",
+	"specularConstant",
+	"specularExponent",
+	"stdDeviation",
+	"stitchTiles",
+	"surfaceScale",
+	"systemLanguage",
+	"tableValues",
+	"targetX",
+	"targetY",
+	"xChannelSelector",
+	"yChannelSelector",
+	"zoomAndPan",
 ]);
 
 const PROPERTY_ATTRIBUTES: Record<string, string> = {
@@ -669,6 +715,9 @@ function normalizeSvgAttributeName(name: string): string {
 	if (CAMEL_CASE_SVG_ATTRS.has(name)) {
 		return name;
 	}
+	if (name === "tabIndex") {
+		return "tabindex";
+	}
 	if (name.startsWith("data") || name.startsWith("aria")) {
 		return normalizeEventName(name);
 	}
-- 
2.43.0


From 24eab7b90c2cf5c6871eeb568d1a30c97e31cc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:30 +0000
Subject: [PATCH 21/37] fix: honour data-ignite-nodiff and data-ignite-hydrated
 on elements created by script

---
 src/renderers/jsx/IgniteJsxRenderStrategy.ts | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/renderers/jsx/IgniteJsxRenderStrategy.ts b/src/renderers/jsx/IgniteJsxRenderStrategy.ts
index e6ad3c0..eec741e 100644
--- a/src/renderers/jsx/IgniteJsxRenderStrategy.ts
+++ b/src/renderers/jsx/IgniteJsxRenderStrategy.ts
@@ -50,19 +50,22 @@ class IgniteJsxRenderStrategy implements RenderStrategy<IgniteJsxChild> {
 		root.setAttribute("data-ignite-jsx-root", "");
 		host.appendChild(root);
 		this.contentRoot = root;
+	}
 
-		const hostElement = (host as ShadowRoot & { host?: Element }).host;
-		const tagName = hostElement?.tagName?.toLowerCase();
+	// Read when content is first rendered: an element created by script gets its
+	// attributes only after it was constructed.
+	private readHostMarks(host: Element | undefined): void {
+		const tagName = host?.tagName?.toLowerCase();
 		const isDenylistedHost = isNoDiffDenylistedTag(tagName);
 		if (
-			hostElement?.hasAttribute?.("data-ignite-nodiff") ||
-			hostElement?.hasAttribute?.("data-ignite-hydrated") ||
+			host?.hasAttribute?.("data-ignite-nodiff") ||
+			host?.hasAttribute?.("data-ignite-hydrated") ||
 			isDenylistedHost
 		) {
 			this.forceReplace = true;
 			this.forceReplaceReason = isDenylistedHost
 				? `denylist:${tagName}`
-				: hostElement?.hasAttribute?.("data-ignite-hydrated")
+				: host?.hasAttribute?.("data-ignite-hydrated")
 					? "hydrated"
 					: "nodiff-attr";
 		}
@@ -75,6 +78,10 @@ class IgniteJsxRenderStrategy implements RenderStrategy<IgniteJsxChild> {
 			);
 		}
 
+		if (this.previousTree === null) {
+			this.readHostMarks((this.contentRoot.getRootNode() as ShadowRoot).host);
+		}
+
 		const mode = this.forceReplace || !this.diffEnabled ? "replace" : this.mode;
 		const forceReason =
 			this.forceReplaceReason ??
-- 
2.43.0


From f7f6994d43d5793b503f799b85469641ad9773af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:04 +0000
Subject: [PATCH 22/37] fix: roots created under an invalid style path get the
 stylesheet configured later

---
 src/injectStyles.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/injectStyles.ts b/src/injectStyles.ts
index 8ccc8b9..5112d6c 100644
--- a/src/injectStyles.ts
+++ b/src/injectStyles.ts
@@ -50,8 +50,6 @@ export default function injectStyles(shadowRoot: ShadowRoot): void {
 		return;
 	}
 
-	initializedRoots.add(shadowRoot);
-
 	// Initialize shadow root cache
 	let shadowStyles = shadowRootCache.get(shadowRoot);
 	if (!shadowStyles) {
@@ -92,6 +90,7 @@ export default function injectStyles(shadowRoot: ShadowRoot): void {
 		// replace anything that follows.
 		shadowRoot.insertBefore(linkElement, shadowRoot.firstChild);
 		shadowStyles.add(href);
+		initializedRoots.add(shadowRoot);
 		debugLog(
 			DebugNamespace.LINK_ELEMENT,
 			"Added to DOM:",
@@ -126,6 +125,11 @@ export default function injectStyles(shadowRoot: ShadowRoot): void {
 		});
 	}
 
+	if (!initializedRoots.has(shadowRoot)) {
+		// No usable stylesheet yet: a later configuration may bring one.
+		pendingRoots.add(shadowRoot);
+	}
+
 	// Deprecated per-component styles have been removed (styles now managed globally)
 }
 
-- 
2.43.0


From 1583664273e943f7cc695b8820e3908f2dce6246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:21 +0000
Subject: [PATCH 23/37] fix: a configuration with invalid styles leaves the
 previous one in force

---
 src/config.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/config.ts b/src/config.ts
index f221c4f..d08a6ba 100644
--- a/src/config.ts
+++ b/src/config.ts
@@ -72,12 +72,14 @@ function normalizeConfig(config: IgniteConfig): IgniteConfig {
 
 export function defineIgniteConfig(config: IgniteConfig): IgniteConfig {
 	const normalized = normalizeConfig(config);
-	registry[CONFIG_SYMBOL] = normalized;
 
+	// Rejects invalid styles, so it comes before the configuration is in force.
 	if ("styles" in normalized) {
 		setGlobalStyles(normalized.styles);
 	}
 
+	registry[CONFIG_SYMBOL] = normalized;
+
 	return normalized;
 }
 
-- 
2.43.0


From d1fcdb8745044135f95913c4fec9e23fd509c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:38 +0000
Subject: [PATCH 24/37] fix: an explicit render strategy does not need the
 configured renderer

---
 src/IgniteElementFactory.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/IgniteElementFactory.ts b/src/IgniteElementFactory.ts
index 1fef282..e1be3f8 100644
--- a/src/IgniteElementFactory.ts
+++ b/src/IgniteElementFactory.ts
@@ -100,10 +100,9 @@ export default function igniteElementFactory<
 		options?.createAdditionalArgs ??
 		((_) => ({}) as AdditionalRenderArgs<State, Event, RenderArgs>);
 
-	const configuredFactory = resolveConfiguredRenderStrategy();
 	const renderStrategyFactory: RenderStrategyFactory<View> =
 		options?.createRenderStrategy ??
-		(configuredFactory as RenderStrategyFactory<View>);
+		(resolveConfiguredRenderStrategy() as RenderStrategyFactory<View>);
 	const cleanupSharedLifecycle = options?.cleanup ?? true;
 
 	const resolveSharedResources = (): {
-- 
2.43.0


From 9a290ee26c4a255cb277f0e656088c168d5564f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:55 +0000
Subject: [PATCH 25/37] fix: an invalid renderer for private state is rejected
 on registration

---
 src/IgniteElementFactory.ts | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/IgniteElementFactory.ts b/src/IgniteElementFactory.ts
index e1be3f8..159a6c4 100644
--- a/src/IgniteElementFactory.ts
+++ b/src/IgniteElementFactory.ts
@@ -149,6 +149,8 @@ export default function igniteElementFactory<
 			);
 		}
 
+		assertRenderer(renderer);
+
 		const inferredScope =
 			options?.scope ??
 			(createAdapter as { scope?: StateScope }).scope ??
@@ -229,6 +231,17 @@ export default function igniteElementFactory<
 		customElements.define(elementName, IsolatedIgniteComponent);
 	};
 
+	function assertRenderer(renderer: ComponentRenderer<RenderArgs, View>): void {
+		if (
+			typeof renderer !== "function" &&
+			typeof renderer?.render !== "function"
+		) {
+			throw new Error(
+				"[igniteElementFactory] Invalid renderer provided. Supply a render function, an object with a render method, or a class with a render method.",
+			);
+		}
+	}
+
 	function resolveRenderer(
 		renderer: ComponentRenderer<RenderArgs, View>,
 	): (args: RenderArgs) => View {
@@ -245,13 +258,7 @@ export default function igniteElementFactory<
 			return renderer as (args: RenderArgs) => View;
 		}
 
-		if (renderer && typeof renderer === "object" && "render" in renderer) {
-			const bound = renderer.render.bind(renderer);
-			return (args) => bound(args);
-		}
-
-		throw new Error(
-			"[igniteElementFactory] Invalid renderer provided. Supply a render function, an object with a render method, or a class with a render method.",
-		);
+		const bound = renderer.render.bind(renderer);
+		return (args) => bound(args);
 	}
 }
-- 
2.43.0


From 2790c5c3888f2d7fc54b96b82a476cf5f6c89303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:43 +0000
Subject: [PATCH 26/37] fix: the Vite plugin works in builds and for pages in
 subdirectories

---
 src/plugins/viteIgniteConfigPlugin.ts | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/plugins/viteIgniteConfigPlugin.ts b/src/plugins/viteIgniteConfigPlugin.ts
index 2215837..3dd2fbd 100644
--- a/src/plugins/viteIgniteConfigPlugin.ts
+++ b/src/plugins/viteIgniteConfigPlugin.ts
@@ -1,4 +1,4 @@
-import { relative, resolve, sep } from "node:path";
+import { dirname, isAbsolute, relative, resolve, sep } from "node:path";
 import { resolveConfigFile } from "./configFile";
 
 export interface IgniteConfigVitePluginOptions {
@@ -57,7 +57,7 @@ export function igniteConfigVitePlugin(
 			});
 	};
 
-	const transformIndexHtml = () => {
+	const injectLoader = (_html?: string, page?: { filename?: string }) => {
 		if (!isValidPath(resolvedConfigPath)) {
 			console.warn("[ignite-element:vite-config] no config file found");
 			return;
@@ -65,7 +65,13 @@ export function igniteConfigVitePlugin(
 
 		const injectTo = options.injectTo ?? "head-prepend";
 
-		const importSpecifier = getImportSpecifier(resolvedConfigPath, projectRoot);
+		// Relative imports are resolved against the page they are injected into.
+		const importBase =
+			page?.filename && isAbsolute(page.filename)
+				? dirname(page.filename)
+				: projectRoot;
+
+		const importSpecifier = getImportSpecifier(resolvedConfigPath, importBase);
 
 		if (!importSpecifier) {
 			console.warn(
@@ -103,6 +109,9 @@ await loadIgniteConfig(() => import(${configModuleImport}));`;
 
 	const enforce: "pre" = "pre";
 
+	// Before Vite processes the page, so that builds bundle the injected imports.
+	const transformIndexHtml = { order: enforce, handler: injectLoader };
+
 	const plugin = {
 		name: "ignite-element:vite-config",
 		enforce,
-- 
2.43.0


From 7b35bb3d5f175fe1edcc6563ee85a0414bfc9797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:20 +0000
Subject: [PATCH 27/37] fix: the webpack plugin keeps webpack's default entry
 and loads the config in it

---
 src/plugins/webpackIgniteConfigPlugin.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/plugins/webpackIgniteConfigPlugin.ts b/src/plugins/webpackIgniteConfigPlugin.ts
index 02ae4fc..6a6abcd 100644
--- a/src/plugins/webpackIgniteConfigPlugin.ts
+++ b/src/plugins/webpackIgniteConfigPlugin.ts
@@ -8,7 +8,7 @@ type EntryDescriptor =
 	| string
 	| string[]
 	| {
-			import: string | string[];
+			import?: string | string[];
 			[key: string]: unknown;
 	  };
 
@@ -25,6 +25,9 @@ export interface WebpackCompilerLike {
 	};
 }
 
+// What webpack builds for an entry that names no module.
+const DEFAULT_IMPORT = "./src";
+
 function normalizeToArray(
 	value: string | string[],
 	moduleId: string,
@@ -50,10 +53,10 @@ function prependConfig(
 		return normalizeToArray(entry, moduleId);
 	}
 
-	if (entry && typeof entry === "object" && "import" in entry) {
+	if (entry && typeof entry === "object") {
 		return {
 			...entry,
-			import: normalizeToArray(entry.import as string | string[], moduleId),
+			import: normalizeToArray(entry.import ?? DEFAULT_IMPORT, moduleId),
 		};
 	}
 
@@ -67,7 +70,7 @@ function applyConfigToEntry(
 	if (!entry) {
 		return {
 			main: {
-				import: [moduleId],
+				import: [moduleId, DEFAULT_IMPORT],
 			},
 		};
 	}
-- 
2.43.0


From c55fd9f9a073412aaeb312c8576b219306666f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:41 +0000
Subject: [PATCH 28/37] fix: a dry run of the beta release does not publish

---
 scripts/release-beta.mjs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/release-beta.mjs b/scripts/release-beta.mjs
index 7111524..22dae71 100644
--- a/scripts/release-beta.mjs
+++ b/scripts/release-beta.mjs
@@ -116,7 +116,10 @@ const main = async () => {
 		console.log("[release:beta] Using provided OTP for npm publish.");
 	}
 
-	const publishCommand = `pnpm changeset publish --tag beta${dryRun ? " --dry-run" : ""}`;
+	// `changeset publish` has no dry run: it ignores the flag and publishes.
+	const publishCommand = dryRun
+		? "pnpm publish --tag beta --access public --no-git-checks --dry-run"
+		: "pnpm changeset publish --tag beta";
 	run(publishCommand, { env: publishEnv });
 
 	console.log(
-- 
2.43.0


From 748aef01d59f5c2b56024958af68ef6da9e05bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:41 +0000
Subject: [PATCH 29/37] fix: the beta release fails when the one-time password
 prompt gets no answer

---
 scripts/release-beta.mjs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/scripts/release-beta.mjs b/scripts/release-beta.mjs
index 22dae71..b5b5caf 100644
--- a/scripts/release-beta.mjs
+++ b/scripts/release-beta.mjs
@@ -74,9 +74,19 @@ const resolveOtp = async () => {
 
 	const rl = createInterface({ input: stdin, output: stdout });
 	const answer = (
-		await rl.question(
-			"[release:beta] Enter npm one-time password (leave blank to skip): ",
-		)
+		await new Promise((resolve, reject) => {
+			// Without this, the end of the input would end the process as if all went well.
+			rl.once("close", () =>
+				reject(
+					new Error(
+						"The input ended before a one-time password was entered. Pass --otp=<code> or --skip-otp.",
+					),
+				),
+			);
+			rl.question(
+				"[release:beta] Enter npm one-time password (leave blank to skip): ",
+			).then(resolve, reject);
+		})
 	).trim();
 	await rl.close();
 	return answer || undefined;
-- 
2.43.0


From 5b9597ef00e2cb8eab9dc580df0a8c2cb516f528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:26 +0000
Subject: [PATCH 30/37] fix: an empty npm token is not stored as the repository
 secret

---
 scripts/refresh-npm-token.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/refresh-npm-token.js b/scripts/refresh-npm-token.js
index 41d690b..e529342 100644
--- a/scripts/refresh-npm-token.js
+++ b/scripts/refresh-npm-token.js
@@ -17,6 +17,10 @@ export default async function refreshNpmToken() {
 		const newToken = execSync("npm token create --read-only --publish", {
 			encoding: "utf8",
 		}).trim();
+		if (!newToken) {
+			// An empty value would replace the secret that is in use.
+			throw new Error("npm did not return a token.");
+		}
 		console.log("✅ New token generated successfully.");
 
 		// Validate environment variables
-- 
2.43.0


From 1a3fd17958b0e7d5cdf6349dd93d3f555c2ad951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:28 +0000
Subject: [PATCH 31/37] fix: refreshing the npm token does not print tokens
 quoted by errors

---
 scripts/refresh-npm-token.js | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/scripts/refresh-npm-token.js b/scripts/refresh-npm-token.js
index e529342..772c3c8 100644
--- a/scripts/refresh-npm-token.js
+++ b/scripts/refresh-npm-token.js
@@ -1,6 +1,14 @@
 import { execSync } from "node:child_process";
 
+// Error texts of the network layer may quote the values they were given.
+const redact = (text, secrets) =>
+	secrets
+		.map((secret) => secret?.trim())
+		.filter(Boolean)
+		.reduce((result, secret) => result.replaceAll(secret, "********"), text);
+
 export default async function refreshNpmToken() {
+	let newToken;
 	try {
 		console.log("🚀 Starting refreshNpmToken...");
 		console.log(
@@ -14,7 +22,7 @@ export default async function refreshNpmToken() {
 
 		// Generate a new NPM token
 		console.log("🔑 Generating a new NPM token...");
-		const newToken = execSync("npm token create --read-only --publish", {
+		newToken = execSync("npm token create --read-only --publish", {
 			encoding: "utf8",
 		}).trim();
 		if (!newToken) {
@@ -60,7 +68,10 @@ export default async function refreshNpmToken() {
 		console.log("✅ Token updated in GitHub Secrets successfully.");
 	} catch (error) {
 		if (error instanceof Error)
-			console.error("❌ Failed to refresh NPM token:", error.message);
+			console.error(
+				"❌ Failed to refresh NPM token:",
+				redact(error.message, [newToken, process.env.GITHUB_TOKEN]),
+			);
 		throw error;
 	}
 }
-- 
2.43.0


From a60592e550c61c133da5c2ac38a9a8f94226ef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:38 +0000
Subject: [PATCH 32/37] fix: custom CSS properties in JSX styles keep their
 upper case letters

---
 src/renderers/jsx/renderer.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 2a9e33f..9de26eb 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -728,6 +728,10 @@ function normalizeSvgAttributeName(name: string): string {
 }
 
 function toKebabCase(value: string): string {
+	if (value.startsWith("--")) {
+		// The names of custom properties are case-sensitive.
+		return value;
+	}
 	return value.replace(/([A-Z])/g, "-$1").toLowerCase();
 }
 
-- 
2.43.0


From 563ab59099e1d0e08bfa3120759045fb8bbaed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 33/37] fix: states such as 0, an empty string, false and null
 are rendered

---
 src/IgniteElement.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index b2715f1..aa57234 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -76,7 +76,7 @@ export default abstract class IgniteElement<
 	}
 
 	private renderTemplate(): void {
-		if (!this._isActive || !this._currentState) {
+		if (!this._isActive || this._currentState === undefined) {
 			console.warn(`[IgniteElement] State is not initialized`);
 			return;
 		}
-- 
2.43.0


From c70be5eab7b719596bf79396e77ccde5406e4b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:39 +0000
Subject: [PATCH 34/37] fix: send events with details such as 0, an empty
 string or false pass them on

---
 src/IgniteElement.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index aa57234..9e53030 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -71,7 +71,7 @@ export default abstract class IgniteElement<
 		}
 
 		const action =
-			event instanceof CustomEvent && event.detail ? event.detail : event;
+			event instanceof CustomEvent ? (event.detail ?? event) : event;
 		this._adapter?.send(action);
 	}
 
-- 
2.43.0


From 9055a6491331d803b02ec88e2bae64c199afe67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:08 +0000
Subject: [PATCH 35/37] fix: JSX styles with overlapping properties such as
 margin and marginTop are applied as written

---
 src/renderers/jsx/renderer.ts | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 9de26eb..03b4613 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -485,21 +485,18 @@ function patchStyle(element: HTMLElement, prev: unknown, next: unknown): void {
 		const prevObj = prev as Record<string, unknown>;
 		const nextObj = next as Record<string, unknown>;
 
+		if (prev !== next && hasSameEntries(prevObj, nextObj)) {
+			return;
+		}
+
+		// Properties overlap (margin, marginTop): undo all, then apply in order.
 		for (const key of Object.keys(prevObj)) {
-			if (!(key in nextObj)) {
-				style.removeProperty(toKebabCase(key));
-			}
+			style.removeProperty(toKebabCase(key));
 		}
 
 		for (const [key, value] of Object.entries(nextObj)) {
-			const cssProperty = toKebabCase(key);
-			const nextValue = value != null ? String(value) : "";
-			if (style.getPropertyValue(cssProperty) !== nextValue) {
-				// Clear first: setProperty ignores values it cannot parse.
-				style.removeProperty(cssProperty);
-				if (nextValue) {
-					style.setProperty(cssProperty, nextValue);
-				}
+			if (value != null) {
+				style.setProperty(toKebabCase(key), String(value));
 			}
 		}
 		return;
@@ -528,6 +525,21 @@ function patchStyle(element: HTMLElement, prev: unknown, next: unknown): void {
 	}
 }
 
+function hasSameEntries(
+	a: Record<string, unknown>,
+	b: Record<string, unknown>,
+): boolean {
+	const aEntries = Object.entries(a);
+	const bEntries = Object.entries(b);
+	return (
+		aEntries.length === bEntries.length &&
+		aEntries.every(
+			([key, value], index) =>
+				key === bEntries[index][0] && Object.is(value, bEntries[index][1]),
+		)
+	);
+}
+
 function patchEventListener(
 	element: Element,
 	key: string,
-- 
2.43.0


From 7a01010c98df97376b7a548b04b58f376d5457b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:08 +0000
Subject: [PATCH 36/37] fix: ARIA properties such as ariaLabel that left the
 view leave no attribute behind

---
 src/renderers/jsx/renderer.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 03b4613..00f7196 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -609,6 +609,10 @@ function removeProp(
 
 function emptyPropertyValue(element: Element, key: string): unknown {
 	// `undefined` would be stringified by native string properties (e.g. value).
+	if (key.startsWith("aria")) {
+		// An empty text would leave an empty aria-* attribute behind.
+		return null;
+	}
 	const isNative = !element.localName.includes("-");
 	return isNative && typeof Reflect.get(element, key) === "string"
 		? ""
-- 
2.43.0


From 7a0b3ef8007d7707527785744e40984aeb247542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:18 +0000
Subject: [PATCH 37/37] fix: content given by innerHTML after children is shown

---
 src/renderers/jsx/renderer.ts | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 00f7196..c923da0 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -75,6 +75,9 @@ const PROPERTY_ATTRIBUTES: Record<string, string> = {
 // Attributes with values such as "false" or "no" whose property is a boolean.
 const ENUMERATED_ATTRIBUTES = new Set(["draggable", "spellcheck", "translate"]);
 
+// Properties that replace the children of their element.
+const CONTENT_PROPERTIES = ["innerHTML", "textContent", "innerText"];
+
 type NormalizedNode =
 	| {
 			kind: "element";
@@ -298,6 +301,15 @@ function patchNode(
 
 	patchProps(elementNode, oldNode.props, newNode.props);
 
+	if (
+		newNode.children.length === 0 &&
+		elementNode instanceof HTMLElement &&
+		givesContent(newNode.props)
+	) {
+		// The property has just replaced whatever children there were.
+		return domNode;
+	}
+
 	const childNamespace =
 		newNode.namespace === SVG_NAMESPACE && newNode.tag !== "foreignObject"
 			? SVG_NAMESPACE
@@ -607,6 +619,13 @@ function removeProp(
 	}
 }
 
+function givesContent(props: IgniteJsxProps): boolean {
+	return CONTENT_PROPERTIES.some((key) => {
+		const value = props[key];
+		return value !== undefined && value !== null && value !== false;
+	});
+}
+
 function emptyPropertyValue(element: Element, key: string): unknown {
 	// `undefined` would be stringified by native string properties (e.g. value).
 	if (key.startsWith("aria")) {
-- 
2.43.0

