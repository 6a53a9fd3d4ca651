// A lifecycle world: a few elements over one kind of source, driven by operations.
// The Model predicts what must be observable; the World does it for real.
import { libs } from "./realm.mjs";
import { createSource, DELAY, dialect, KINDS, Probe } from "./sources.mjs";

// Operations (JSON):
//  ["create",i] ["ins",i,"P"] ["parse",i,"P"] ["rm",i] ["clear","P"]     life of element i
//  ["send",i,t] host event   ["in",i,t] event bubbling out of content   ["ls",i,t] send of the latest render
//  ["fs",i,t] send of the first render   ["cmd",i,t] command   ["plain",i] send event without details
//  ["nest",i,j] element i becomes a (light) child of element j   ["batch",[op...]] several operations in one
//  transaction of the source, where it has transactions (MobX)
//  ["seq",[op...]] several operations one after the other (as one reaction)
//  ["ext",t] the user changes the source   ["tick"] time passes   ["reg"] a second tag is registered
//  ["arm",w,op] when the trigger w fires next, do op.  w = "x" (user's own subscription) | "r<i>" (element i renders)

export const SENDS = new Set(["send", "in", "ls", "fs", "cmd", "plain"]);

export class Model {
	constructor(cfg) {
		this.cfg = cfg;
		this.shared = KINDS[cfg.kind].shared;
		this.n = cfg.n ?? 2;
		this.seq = 0;
		this.now = 0;
		this.log = "";
		this.due = null;
		this.events = []; // expected [element|null, type, payload]
		this.els = Array.from({ length: this.n }, () => ({ st: "none", place: null, log: "", due: null, renders: 0, rendered: false }));
		this.armed = null;
		this.peak = 0;
		this.over = false;
		// elements that stood in the document before their tag was registered
		for (let i = 0; i < (cfg.pre ?? 0); i++) Object.assign(this.els[i], { st: "on", place: "P", rendered: true });
	}
	clone() {
		const m = Object.create(Model.prototype);
		Object.assign(m, this);
		m.events = [...this.events];
		m.els = this.els.map((e) => ({ ...e }));
		return m;
	}
	logOf(i) {
		return this.shared ? this.log : this.els[i].log;
	}
	connected() {
		return this.els.filter((e) => e.st === "on").length;
	}
	/** apply event t (payload p) through element i (or null = outside) */
	change(i, t, p) {
		const holder = this.shared ? this : this.els[i];
		if (holder.over) return; // a machine that reached its end takes no more events
		if (t === "f") {
			holder.over = true;
			holder.due = null;
		}
		if (t === "d") {
			if (holder.due !== null) return; // already waiting: the machine ignores it
			this.events.push([i, t, p]);
			holder.due = this.now + DELAY;
			this.notify(i);
			return;
		}
		this.events.push([i, t, p]);
		if (t === "z") holder.log = "";
		else holder.log += (t === "send" ? "s" : t) + (p ?? "");
		this.notify(i);
	}
	notify(i) {
		// everyone connected to this source is told
		if (this.shared) this.trigger("x");
		for (let k = 0; k < this.n; k++) {
			if (this.els[k].st === "on" && (this.shared || k === i)) this.trigger(`r${k}`);
		}
	}
	trigger(w) {
		if (this.armed && this.armed[0] === w) {
			const op = this.armed[1];
			this.armed = null;
			this.apply(op);
		}
	}
	apply(op) {
		const [o, i, x] = op;
		const e = this.els[i];
		switch (o) {
			case "create":
				e.st = "new";
				break;
			case "ins":
			case "parse": {
				if (e.st === "on" || e.st === "zombie") {
					// a move: out and in again
					if (!this.shared) {
						e.st = "zombie";
						e.due = null;
					}
				} else if (e.st === "off" && !this.shared) e.st = "zombie";
				else e.st = "on";
				e.place = x;
				if (e.st === "on") {
					e.rendered = true;
					this.trigger(`r${i}`);
				}
				this.els.forEach((el, k) => {
					if (el.place === `E${i}`) this.apply(["ins", k, el.place]);
				});
				break;
			}
			case "nest": {
				if (this.els[x].st === "on" || this.els[x].st === "zombie") {
					this.apply(["ins", i, `E${x}`]);
					break;
				}
				this.apply(["rm", i]);
				e.place = `E${x}`;
				break;
			}
			case "seq":
			case "batch":
				for (const inner of i) this.apply(inner);
				break;
			case "rm":
				if (e.st === "on" || e.st === "zombie") {
					e.st = "off";
					e.due = null;
				}
				e.place = null;
				this.els.forEach((el, k) => {
					if (el.place !== `E${i}`) return;
					this.apply(["rm", k]);
					el.place = `E${i}`;
				});
				break;
			case "clear":
				this.els.forEach((el, k) => {
					if (el.place === i) this.apply(["rm", k]);
				});
				break;
			case "send":
			case "in":
			case "ls":
			case "fs":
			case "cmd": {
				const p = op[3] ?? this.seq++;
				if (e.st === "on") this.change(i, x, p);
				break;
			}
			case "plain":
				if (e.st === "on") this.change(i, "send", undefined);
				break;
			case "ext":
				this.change(null, i, op[2] ?? this.seq++);
				break;
			case "tick":
				this.now += DELAY;
				if (this.shared) {
					if (this.due !== null) {
						this.due = null;
						this.log += "t";
						this.notify(null);
					}
				} else
					this.els.forEach((el, k) => {
						if (el.due !== null && (el.st === "on" || el.st === "new")) {
							el.due = null;
							el.log += "t";
							this.notify(k);
						}
					});
				break;
			case "arm":
				this.armed = [i, x];
				break;
			case "reg":
				break;
			default:
				throw new Error(`model: ${o}`);
		}
		return this;
	}
	inside(i, j) {
		for (let k = j; k !== undefined; ) {
			if (k === i) return true;
			const at = this.els[k].place;
			k = at?.[0] === "E" ? Number(at.slice(1)) : undefined;
		}
		return false;
	}
	key() {
		return `${this.cfg.kind}|${this.log}|${this.due}|${this.els.map((e) => `${e.st}${e.place ?? ""}${e.log}${e.due !== null ? "!" : ""}${e.over ? "." : ""}`).join(",")}|${this.over}|${JSON.stringify(this.armed)}`;
	}
}

export function fill(op, next) {
	// payload numbers are drawn in program order, identically in model and world
	if (SENDS.has(op[0]) && op[0] !== "plain") return [op[0], op[1], op[2], op[3] ?? next()];
	if (op[0] === "ext") return ["ext", op[1], op[2] ?? next()];
	if (op[0] === "arm") return ["arm", op[1], fill(op[2], next)];
	if (op[0] === "batch" || op[0] === "seq") return [op[0], op[1].map((o) => fill(o, next))];
	return op;
}

let useCount = 0;
/** how many events a log holds */
export const count = (log) => log.match(/[a-z]/g)?.length ?? 0;

export class World {
	constructor(realm, cfg, hooks = {}) {
		this.realm = realm;
		this.cfg = cfg;
		this.hooks = hooks;
		this.n = cfg.n ?? 2;
		this.d = dialect(cfg.kind);
		this.probe = new Probe();
		this.src = createSource(cfg.kind, this.probe);
		this.info = new Map(); // element -> {renders, firstSend, lastArgs, ids}
		this.els = new Array(this.n).fill(null);
		this.armed = null;
		this.emitted = [];
		this.uid = ++useCount;
		const doc = realm.document;
		this.stage = doc.createElement("div");
		this.parents = {};
		for (const p of ["P", "Q"]) {
			this.parents[p] = doc.createElement("div");
			this.stage.append(this.parents[p]);
		}
		doc.body.append(this.stage);
		this.tags = [];
		// tags: [factoryIndex, ...]; default one tag, one factory
		const plan = cfg.tags ?? [0];
		this.factories = [];
		for (const f of plan) {
			this.factories[f] ??= this.makeFactory();
			const tag = realm.tag("w");
			this.tags.push(tag);
		}
		for (let i = 0; i < (cfg.pre ?? 0); i++) {
			this.els[i] = doc.createElement(this.tagOf(i));
			this.parents.P.append(this.els[i]);
		}
		plan.forEach((f, k) => {
			const tag = this.tags[k];
			let next = this.probe.ids;
			const render = this.renderer(tag);
			this.factories[f](tag, render);
			// one source per element, in document order
			for (let i = 0; i < (cfg.pre ?? 0); i++) {
				if (this.tagOf(i) === tag && next < this.probe.ids) this.infoOf(this.els[i]).ids.push(next++);
			}
		});
		this.watchers = [];
		if (cfg.early && this.src.watch) this.watchers.push(this.src.watch(() => this.fire("x")));
	}
	tagOf(i) {
		return this.tags[(this.cfg.assign ?? [])[i] ?? i % this.tags.length];
	}
	makeFactory() {
		const { cfg, realm, d } = this;
		const lib = KINDS[cfg.kind].lib;
		const world = this;
		const states = (snap) => {
			world.hooks.states?.(snap);
			const log = d.snapLog(snap);
			return { shown: log, size: log.length, mode: d.snapMode?.(snap) ?? "" };
		};
		const commands = ({ actor, emit, host }) => ({
			who: () => host,
			cmd: (t, p) => d.command(actor, t, p),
			now: () => d.current(actor),
			nowMode: () => d.mode?.(actor) ?? "",
			fire: (type, detail) => emit(type, detail),
			run: (fn) => fn({ actor, emit, host, cmd: (t, p) => d.command(actor, t, p) }),
		});
		const options = { states, commands, events: (event) => ({ ping: event(), pong: event() }) };
		if (cfg.cleanup !== undefined) options.cleanup = cfg.cleanup;
		if (lib === "custom") {
			const { igniteElementFactory } = realm.api.index();
			return igniteElementFactory(this.src.createAdapter, {
				...(KINDS[cfg.kind].shared ? { scope: "shared" } : {}),
				...(cfg.cleanup !== undefined ? { cleanup: cfg.cleanup } : {}),
				createAdditionalArgs: (adapter, host) => ({
					who: () => host,
					cmd: (t, p) => adapter.send(d.event(t, p)),
					now: () => adapter.getState().log,
					nowMode: () => "",
					mode: "",
					get shown() {
						return adapter.getState().log;
					},
					get size() {
						return adapter.getState().log.length;
					},
				}),
			});
		}
		const { igniteCore } = realm.api[lib]();
		return igniteCore({ source: this.src.source, ...options });
	}
	renderer(tag) {
		const world = this;
		const { realm, cfg, d } = this;
		const onRender = (args) => {
			const host = args.who();
			const info = world.infoOf(host);
			info.renders++;
			if (!host.isConnected) info.offRenders++;
			info.firstSend ??= args.send;
			info.lastArgs = args;
			world.hooks.render?.(host, args, tag);
			const i = world.els.indexOf(host);
			if (i >= 0) world.fire(`r${i}`);
			else if (world.parsing !== undefined) world.fire(`r${world.parsing}`);
			// cfg.chain: element 0 goes on sending from its renderer until there are that many events
			if (cfg.chain && (host === world.els[0] || world.parsing === 0)) {
				const n = count(d.logOf(args.state));
				if (n > 0 && n < cfg.chain) args.send(d.event("a", 0));
			}
			if (world.bad(d.logOf(args.state))) throw new Error(`the view of ${d.logOf(args.state)} cannot be built`);
		};
		const bits = (args) => [args.shown, "|", args.size, "|", args.mode, "|", d.modeOf?.(args.state) ?? ""];
		if (cfg.renderer === "lit") {
			const { html, nothing } = realm.api.lit();
			return (args) => {
				onRender(args);
				const log = d.logOf(args.state);
				return html`<div class=${`n${log.length}`}><span class="log">${log}</span><span class="sh">${bits(args)}</span><button class="go" @click=${() => args.send(d.event("a", "c"))}></button>${world.childView(log, (t, p) => (t === "ping" ? html`<x-ping .detail=${p}></x-ping>` : t ? html(world.childStrings(t), log) : nothing), tag)}</div>`;
			};
		}
		const { jsx, jsxs } = realm.api.jsxRuntime();
		if (cfg.form === "class") {
			// keeps to itself what it rendered; with an instance per element that is the element's own history
			return class View {
				mine = [];
				render(args) {
					onRender(args);
					const log = d.logOf(args.state);
					const host = args.who();
					this.host ??= host;
					this.mine.push(log);
					const own = this.host === host ? "own" : "foreign";
					return jsxs("div", { class: `n${log.length}`, children: [jsx("span", { class: "log", children: log }), jsxs("span", { class: "sh", children: bits(args) }), jsx("i", { class: own, children: this.mine.join() })] });
				}
			};
		}
		return (args) => {
			onRender(args);
			const log = d.logOf(args.state);
			return jsxs("div", {
				class: `n${log.length}`,
				children: [
					jsx("span", { class: "log", children: log }),
					jsxs("span", { class: "sh", children: bits(args) }),
					jsx("button", { class: "go", onClick: () => args.send(d.event("a", "c")) }),
					world.childView(log, (t, p) => (t === "ping" ? jsx("x-ping", { detail: p }) : t ? jsx(t, { title: log }) : null), tag),
				],
			});
		};
	}
	/** cfg.throwing: the renderer throws while the state has two events */
	bad(log) {
		return this.cfg.throwing === true && count(log) === 2;
	}
	childStrings(tag) {
		this.strings ??= Object.assign([`<${tag} title=`, `></${tag}>`], { raw: [`<${tag} title=`, `></${tag}>`] });
		return this.strings;
	}
	childView(log, make, tag) {
		// cfg.view "child": the component contains another component, except in every third state
		if (this.cfg.view === "child" && tag === this.tags[0]) return make(count(log) % 3 === 2 ? null : this.childTag);
		// cfg.view "ping": the first time the log contains b, a child element appears and,
		// as soon as it is connected, sends an event to the component around it
		if (this.cfg.view !== "ping") return make(null);
		return make(log.includes("b") ? "ping" : null, this.d.event("a", "k"));
	}
	infoOf(host) {
		let info = this.info.get(host);
		if (!info) {
			info = { renders: 0, offRenders: 0, firstSend: null, lastArgs: null, ids: [] };
			this.info.set(host, info);
		}
		return info;
	}
	fire(w) {
		if (this.armed && this.armed[0] === w) {
			const op = this.armed[1];
			this.armed = null;
			this.apply(op);
		}
	}
	apply(op) {
		const [o, i, x, p] = op;
		const { realm, d } = this;
		const el = this.els[i];
		switch (o) {
			case "create": {
				const before = this.probe.ids;
				this.els[i] = realm.document.createElement(this.tagOf(i));
				const info = this.infoOf(this.els[i]);
				for (let k = before; k < this.probe.ids; k++) info.ids.push(k);
				break;
			}
			case "ins":
				this.parents[x].append(el);
				break;
			case "parse": {
				const before = this.probe.ids;
				const holder = realm.document.createElement("div");
				holder.className = "holder";
				this.parents[x].append(holder);
				this.parsing = i;
				holder.innerHTML = `<${this.tagOf(i)}></${this.tagOf(i)}>`;
				this.els[i] = holder.firstElementChild;
				this.parsing = undefined;
				const info = this.infoOf(this.els[i]);
				for (let k = before; k < this.probe.ids; k++) info.ids.push(k);
				break;
			}
			case "nest":
				this.els[x].append(el);
				break;
			case "seq":
				i.forEach((inner) => this.apply(inner));
				break;
			case "batch":
				if (KINDS[this.cfg.kind].lib === "mobx") libs.mobx.runInAction(() => i.forEach((inner) => this.apply(inner)));
				else i.forEach((inner) => this.apply(inner));
				break;
			case "rm":
				el.remove();
				break;
			case "clear":
				this.parents[i].replaceChildren();
				break;
			case "send":
				el.dispatchEvent(new realm.window.CustomEvent("send", { detail: d.event(x, p) }));
				break;
			case "plain":
				el.dispatchEvent(x ? new realm.window.CustomEvent("send") : new realm.window.Event("send"));
				break;
			case "in":
				el.shadowRoot.querySelector(".go")?.dispatchEvent(new realm.window.CustomEvent("send", { detail: d.event(x, p), bubbles: true, composed: true }));
				break;
			case "ls":
				this.infoOf(el).lastArgs?.send(d.event(x, p));
				break;
			case "fs":
				this.infoOf(el).firstSend?.(d.event(x, p));
				break;
			case "cmd":
				this.infoOf(el).lastArgs?.cmd(x, p);
				break;
			case "ext":
				this.src.outside(i, x);
				break;
			case "tick":
				realm.tick(DELAY);
				break;
			case "arm":
				this.armed = [i, x];
				if (i === "x" && !this.cfg.early && !this.watchers.length && this.src.watch) this.watchers.push(this.src.watch(() => this.fire("x")));
				break;
			case "reg": {
				const tag = realm.tag("w");
				this.factories[0](tag, this.renderer(tag));
				this.tags.push(tag);
				break;
			}
			default:
				throw new Error(`world: ${o}`);
		}
	}
	shown(i) {
		const root = this.els[i]?.shadowRoot;
		if (!root) return null;
		const log = root.querySelector(".log");
		const sh = root.querySelector(".sh");
		if (!log) return null;
		return `${log.textContent}~${sh.textContent}~${root.querySelector("div")?.className}~${root.querySelectorAll(".log").length}`;
	}
	/** what the source of element i really holds now */
	truth(i) {
		if (KINDS[this.cfg.kind].shared) return this.src.log();
		const info = this.infoOf(this.els[i]);
		switch (this.cfg.kind) {
			case "storeFactory":
				return this.probe.stores.get(info.ids[0]).getState().log;
			case "obsFactory":
			case "custom":
				return this.probe.stores.get(info.ids[0]).log;
			default:
				return info.lastArgs?.now();
		}
	}
	modeNow(i) {
		if (KINDS[this.cfg.kind].lib !== "xstate") return "";
		if (KINDS[this.cfg.kind].shared) return this.src.source.getSnapshot().value;
		return this.infoOf(this.els[i]).lastArgs?.nowMode();
	}
	want(log, mode = "") {
		return `${log}~${log}|${log.length}|${mode}|${mode}~n${log.length}~1`;
	}
	close() {
		for (const w of this.watchers) w();
		this.armed = null;
		this.stage.remove();
		this.src.dispose?.();
		this.realm.clock.pending.clear();
		this.realm.takeErrors();
		this.realm.takeLogs();
	}
}

/** realm in which components use this renderer */
export function setupRenderer(realm, renderer) {
	if (realm.worldRenderer === renderer) return;
	const { defineIgniteConfig } = realm.api.index();
	if (renderer === "lit") {
		realm.api.rendererLit();
		defineIgniteConfig({ renderer: "lit" });
	} else defineIgniteConfig({ renderer: "ignite-jsx" });
	if (!realm.window.customElements.get("x-ping")) {
		realm.window.customElements.define(
			"x-ping",
			class extends realm.window.HTMLElement {
				get detail() {
					return this.what;
				}
				set detail(v) {
					this.what = v;
				}
				connectedCallback() {
					this.dispatchEvent(new realm.window.CustomEvent("send", { detail: this.detail, bubbles: true, composed: true }));
				}
			},
		);
	}
	realm.worldRenderer = renderer;
}

/** every sequence of `depth` enabled operations */
export function* histories(cfg, depth, enabled, { prefix = [] } = {}) {
	const m0 = new Model(cfg);
	for (const op of prefix) m0.apply(op);
	function* go(m, ops) {
		if (ops.length === prefix.length + depth) {
			yield ops;
			return;
		}
		let any = false;
		for (const op of enabled(m, ops)) {
			any = true;
			yield* go(m.clone().apply(op), [...ops, op]);
		}
		if (!any) yield ops;
	}
	yield* go(m0, prefix);
}

/** elements are interchangeable: element i is touched only after all earlier ones exist */
export function usable(m, i) {
	return i === 0 || m.els[i - 1].st !== "none";
}

/** run ops in lock step and call check(world, model, step) whenever the world is at rest */
export function play(ctx, t, check, hooks) {
	const realm = ctx.realm(t.cfg.renderer === "lit" ? 150 : 150);
	if (realm.worldRenderer && realm.worldRenderer !== t.cfg.renderer) {
		ctx.closeRealm();
		return play(ctx, t, check, hooks);
	}
	setupRenderer(realm, t.cfg.renderer);
	realm.takeErrors();
	realm.takeLogs();
	const model = new Model(t.cfg);
	const world = new World(realm, t.cfg, hooks);
	let seq = 0;
	const next = () => seq++;
	try {
		for (let s = 0; s < t.ops.length; s++) {
			const op = fill(t.ops[s], next);
			hooks?.before?.(world, model, op);
			if (t.cfg.throwing) {
				try {
					world.apply(op);
				} catch {}
				realm.takeErrors();
			} else world.apply(op);
			model.apply(op);
			ctx.step();
			ctx.state(model.key());
			const bad = check(world, model, op, s);
			if (bad) {
				ctx.fail(`${bad}\n after step ${s + 1} ${JSON.stringify(op)} of ${JSON.stringify(t)}`, { trace: { ...t, ops: t.ops.slice(0, s + 1) }, sig: undefined });
				return;
			}
		}
	} finally {
		world.close();
	}
}
