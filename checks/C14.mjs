// Commands change their own element's source only; emitted events leave their host once, in program order.
import { createSource, dialect, KINDS, Probe } from "../lib/sources.mjs";
import { sequences } from "../lib/enum.mjs";

const FACADE = Object.keys(KINDS).filter((k) => KINDS[k].lib !== "custom");

// what one command does, step by step: c = change the state, e = emit ping, E = emit pong, u = emit an undeclared event
const SCRIPTS = ["c", "e", "ce", "ec", "cec", "eE", "ece", "uc"];
// what a listener does when it first hears a ping: [what, on which element relative to the emitter]
const REACT = ["none", "same:c", "other:c", "same:E", "other:E", "same:rm", "other:rm", "same:ce", "throw"];

const UNDECLARED = ["other", "toString", "constructor", "__proto__", "hasOwnProperty", ""];
const EVENT_MAPS = {
	none: undefined,
	empty: () => ({}),
	nothing: () => undefined,
	some: (event) => ({ ping: event() }),
	bare: (event) => Object.assign(Object.create(null), { ping: event() }),
};
// details: what is given and whether it arrives as itself
const DETAILS = [["undefined", undefined], ["null", null], ["false", false], ["true", true], ["0", 0], ["-1", -1], ["NaN", Number.NaN], ["empty string", ""], ["string", "x"], ["bigint", 0n], ["empty array", []], ["array", [1, { a: [] }]], ["object", { a: 1 }], ["frozen", Object.freeze({ a: 1 })], ["instance", new (class Pt { x = 1; get y() { return 2; } })()], ["map", new Map([[1, 2]])], ["date", new Date(0)], ["error", new Error("e")], ["function", () => 1], ["symbol", Symbol("s")]];
const BAD = {
	undef: () => undefined,
	null: () => null,
	array: () => [],
	arrayFn: () => [() => {}],
	number: () => 3,
	string: () => "abc",
	bool: () => true,
	fn: () => () => {},
	symbol: () => Symbol("x"),
};
const BAD_COMMANDS = {
	...BAD,
	valueNumber: () => ({ go: 1 }),
	valueNull: () => ({ ok: () => {}, go: null }),
	valueUndef: () => ({ go: undefined, ok: () => {} }),
	valueObject: () => ({ go: {} }),
	valueString: () => ({ a: () => {}, b: () => {}, c: "x" }),
};

export default {
	id: "C14",
	bounds: (tier) =>
		`7 facade source kinds x 2 elements (one nested in a foreign shadow root): every history of ${tier === "thorough" ? 4 : 3} operations over insert, remove and ${SCRIPTS.length} command scripts; every listener reaction (${REACT.length}) x every script pair; ${UNDECLARED.length} undeclared names x ${Object.keys(EVENT_MAPS).length} event maps x NODE_ENV x 2 element states; ${Object.keys(BAD).length} bad states results,  ${DETAILS.length}^2 pairs of event details and ${Object.keys(BAD_COMMANDS).length} bad commands results x 7 kinds x 4 ways to create an element`,
	assumptions: ["jsdom as the DOM (event paths and custom element reactions)", "process.env.NODE_ENV is read when the event is emitted"],
	*cases(tier) {
		const depth = tier === "thorough" ? 4 : 3;
		for (const kind of FACADE) {
			const ops = [];
			for (const i of [0, 1]) {
				ops.push(`+${i}`, `-${i}`);
				for (const s of SCRIPTS) ops.push(`${s}@${i}`);
			}
			for (const env of ["test", "production"]) {
				for (const start of ["both", "first"]) {
					for (const seq of sequences(ops, depth)) {
						if (env === "production" && !seq.some((o) => o.startsWith("uc"))) continue;
						if (!useful(seq, start, KINDS[kind].shared)) continue;
						yield { part: "run", kind, env, start, seq, react: "none" };
					}
				}
			}
			for (const react of REACT) {
				if (react === "none") continue;
				for (const start of ["both", "first"])
					for (const seq of sequences(ops.filter((o) => o.includes("@")), 2)) {
						if (!seq.some((o) => o.includes("e"))) continue;
						if (!useful(seq, start, KINDS[kind].shared)) continue;
						yield { part: "run", kind, env: "test", start, seq, react };
					}
			}
			for (const env of ["test", "development", "production", undefined])
				for (const map of Object.keys(EVENT_MAPS)) for (const name of UNDECLARED) for (const on of [true, false]) yield { part: "undeclared", kind, env, map, name, on };
			for (const env of ["test", "production"]) for (const on of [true, false]) for (let d1 = 0; d1 < DETAILS.length; d1++) for (let d2 = 0; d2 < DETAILS.length; d2++) yield { part: "detail", kind, env, on, d: [d1, d2] };
			for (const how of ["new", "create", "parse", "upgrade"]) {
				for (const b of Object.keys(BAD)) yield { part: "shape", kind, how, states: b };
				for (const b of Object.keys(BAD_COMMANDS)) yield { part: "shape", kind, how, commands: b };
			}
		}
	},
	exec(ctx, t) {
		const realm = ctx.realm(150);
		const env = process.env.NODE_ENV;
		try {
			if (t.part === "run") run(ctx, realm, t);
			else if (t.part === "detail") detail(ctx, realm, t);
			else if (t.part === "undeclared") undeclared(ctx, realm, t);
			else shape(ctx, realm, t);
		} finally {
			if (env === undefined) delete process.env.NODE_ENV;
			else process.env.NODE_ENV = env;
			realm.document.body.replaceChildren();
			realm.takeErrors();
			realm.takeLogs();
			realm.clock.pending.clear();
		}
	},
};

function useful(seq, start, shared) {
	const on = [true, start === "both"];
	const was = [true, start === "both"];
	for (const op of seq) {
		const i = Number(op.at(-1));
		if (op[0] === "+") {
			if (on[i] || (was[i] && !shared)) return false;
			on[i] = was[i] = true;
		} else if (op[0] === "-") {
			if (!on[i]) return false;
			on[i] = false;
		} else if (!was[i]) return false; // no render, no commands yet
	}
	return true;
}

function setEnv(v) {
	if (v === undefined) delete process.env.NODE_ENV;
	else process.env.NODE_ENV = v;
}

function run(ctx, realm, t) {
	const d = dialect(t.kind);
	const shared = KINDS[t.kind].shared;
	const probe = new Probe();
	const src = createSource(t.kind, probe);
	const { igniteCore } = realm.api[KINDS[t.kind].lib]();
	const { jsx } = realm.api.jsxRuntime();
	const args = new Map();
	setEnv(t.env);
	const register = igniteCore({
		source: src.source,
		events: (event) => ({ ping: event(), pong: event() }),
		commands: ({ actor, emit, host }) => ({
			who: () => host,
			now: () => d.current(actor),
			run: (steps, detail, note) => {
				for (const s of steps) {
					if (s === "c") d.command(actor, "a", detail.n);
					else {
						let threw = false;
						try {
							emit({ e: "ping", E: "pong", u: "oops" }[s], detail);
						} catch {
							threw = true;
						}
						note?.(s, threw);
					}
				}
			},
		}),
	});
	const tag = realm.tag("e");
	register(tag, (a) => {
		args.set(a.who(), a);
		return jsx("p", { children: d.logOf(a.state) });
	});
	const doc = realm.document;
	const stage = doc.createElement("div");
	doc.body.append(stage);
	const nest = doc.createElement("div");
	stage.append(nest);
	const inner = nest.attachShadow({ mode: "open" });
	const slotParent = doc.createElement("section");
	inner.append(slotParent);
	const els = [doc.createElement(tag), doc.createElement(tag)];
	const homes = [stage, slotParent];

	// ---- what is observed
	const heard = [];
	const logNow = (i) => args.get(els[i])?.now() ?? "";
	const on = [false, false];
	let reacted = false;
	const listeners = [];
	const listen = (target, name) => {
		for (const type of ["ping", "pong", "oops"]) {
			const fn = (ev) => {
				const who = ev.composedPath()[0];
				const i = els.indexOf(who);
				heard.push(`${name}|${type}|${i}|${ev.detail?.n}|${ev.detail === current.detail ? "same" : "other"}|${ev.bubbles}${ev.composed}${ev instanceof realm.window.CustomEvent}|${shared ? logNow(0) || logNow(1) : logNow(i)}`);
				if (name === "host" && type === "ping" && !reacted && t.react !== "none") {
					reacted = true;
					react(i);
				}
			};
			target.addEventListener(type, fn);
			listeners.push(() => target.removeEventListener(type, fn));
		}
	};
	let current = { detail: null };
	els.forEach((el) => {
		listen(el, "host");
	});
	listen(slotParent, "section");
	listen(nest, "nest");
	listen(stage, "stage");
	listen(doc, "document");
	listen(realm.window, "window");

	// ---- what is expected
	const want = [];
	const log = ["", ""];
	const known = [true, true];
	let n = 0;
	const path = (i) => (!on[i] ? ["host"] : i === 0 ? ["host", "stage", "document", "window"] : ["host", "section", "nest", "stage", "document", "window"]);
	// the expectation is computed by the same program, run on the model, with the listeners' reactions
	let mReacted = false;
	function mRun(m, i, steps, detail) {
		for (const s of steps) {
			if (s === "c") {
				if (m.on[i]) {
					if (shared) m.log[0] += `a${detail}`;
					else m.log[i] += `a${detail}`;
				} else m.known[shared ? 0 : i] = false;
				continue;
			}
			if (s === "u" && t.env !== "production") continue;
			const type = { e: "ping", E: "pong", u: "oops" }[s];
			const p = m.path(i);
			for (const level of p) {
				want.push(`${level}|${type}|${i}|${detail}`, m.known[shared ? 0 : i] ? m.log[shared ? 0 : i] : null);
				if (level === "host" && type === "ping" && !mReacted && t.react !== "none") {
					mReacted = true;
					mReact(m, i);
				}
			}
		}
	}
	function mReact(m, i) {
		const [where, what] = t.react.split(":");
		if (where === "throw") return;
		const k = where === "same" ? i : 1 - i;
		if (what === "rm") m.on[k] = false;
		else if (m.was[k]) mRun(m, k, what, n++);
	}
	function react(i) {
		const [where, what] = t.react.split(":");
		if (where === "throw") throw new Error("listener fails");
		const k = where === "same" ? i : 1 - i;
		if (what === "rm") els[k].remove();
		else if (args.has(els[k])) {
			const before = current;
			current = { detail: { n: rn++ } };
			args.get(els[k]).run(what, current.detail);
			current = before;
		}
	}
	let rn = 0;
	const model = { log, known, on, was: [false, false], path: (i) => path(i) };
	const insert = (i) => {
		homes[i].append(els[i]);
		on[i] = model.was[i] = true;
	};
	insert(0);
	if (t.start === "both") insert(1);

	for (const op of t.seq) {
		const i = Number(op.at(-1));
		if (op[0] === "+") insert(i);
		else if (op[0] === "-") {
			els[i].remove();
			on[i] = false;
		} else {
			const steps = op.slice(0, -2);
			heard.length = 0;
			want.length = 0;
			reacted = mReacted = false;
			rn = n + 1;
			const notes = [];
			current = { detail: { n } };
			const first = n++;
			const pathNow = [path(0), path(1)];
			model.path = (k) => pathNow[k]; // an event's path is fixed when it is dispatched ...
			const others = [0, 1].filter((k) => k !== i && !shared && args.has(els[k]));
			const otherBefore = others.map((k) => logNow(k));
			args.get(els[i]).run(steps, current.detail, (s, threw) => notes.push(s + threw));
			model.path = (k) => path(k);
			mRun(model, i, steps, first);
			// ... so only reactions that remove something change the later ones (recomputed from `on`)
			n = Math.max(n, rn);
			const fail = (msg) => ctx.fail(`${msg}\n ${op} in ${JSON.stringify(t)}\n heard ${JSON.stringify(heard)}\n want ${JSON.stringify(want)}`);
			const wantNotes = [...steps].filter((s) => s !== "c").map((s) => s + (s === "u" && t.env !== "production"));
			if (notes.join() !== wantNotes.join()) return fail(`emitting behaved as ${notes} instead of ${wantNotes} (letter + did it throw)`);
			if (heard.length * 2 !== want.length) return fail(`${heard.length} deliveries instead of ${want.length / 2}`);
			for (let k = 0; k < heard.length; k++) {
				const [name, type, who, detail, same, flags, lg] = heard[k].split("|");
				if (`${name}|${type}|${who}|${detail}` !== want[2 * k]) return fail(`delivery ${k} is ${heard[k]} instead of ${want[2 * k]}`);
				if (same !== "same") return fail(`delivery ${k} carries another detail object`);
				if (flags !== "truetruetrue") return fail(`delivery ${k}: bubbles/composed/CustomEvent = ${flags}`);
				if (want[2 * k + 1] !== null && lg !== want[2 * k + 1]) return fail(`delivery ${k} happened while the source held ${JSON.stringify(lg)} instead of ${JSON.stringify(want[2 * k + 1])}`);
			}
			if (!t.react.startsWith("other")) others.forEach((k, x) => {
				if (logNow(k) !== otherBefore[x]) fail(`the source of element ${k} changed`);
			});
		}
		for (const k of [0, 1]) {
			if (!args.has(els[k])) continue;
			const h = shared ? 0 : k;
			const now = logNow(k);
			if (model.known[h]) {
				if (now !== model.log[h] && model.on[k]) return ctx.fail(`the source of element ${k} holds ${JSON.stringify(now)} instead of ${JSON.stringify(model.log[h])}\n after ${op} in ${JSON.stringify(t)}`);
			} else if (shared) {
				model.log[h] = src.log();
				model.known[h] = true;
			}
		}
		ctx.step();
		ctx.state(`${t.kind}|${model.log}|${on}|${op}`);
	}
	for (const off of listeners) off();
	src.dispose?.();
}

function detail(ctx, realm, t) {
	const src = createSource(t.kind, new Probe());
	const { igniteCore } = realm.api[KINDS[t.kind].lib]();
	const { jsx } = realm.api.jsxRuntime();
	setEnv(t.env);
	let fire;
	const register = igniteCore({ source: src.source, events: (event) => ({ ping: event() }), commands: ({ emit }) => ({ fire: (...a) => emit("ping", ...a) }) });
	const tag = realm.tag("d");
	register(tag, (a) => {
		fire = a.fire;
		return jsx("p", {});
	});
	const el = realm.document.createElement(tag);
	realm.document.body.append(el);
	if (!t.on) el.remove();
	const got = [];
	el.addEventListener("ping", (ev) => got.push(ev.detail));
	let far = 0;
	const hear = (ev) => {
		if (ev.composed) far++;
	};
	realm.document.addEventListener("ping", hear);
	t.d.forEach((k, n) => {
		const [name, value] = DETAILS[k];
		try {
			fire(value);
		} catch (e) {
			return ctx.fail(`emitting with the detail ${name} threw ${e}\n${JSON.stringify(t)}`);
		}
		const want = value === undefined ? null : value;
		if (got.length !== n + 1 || !(Object.is(got[n], want) || (value === undefined && got[n] === undefined))) ctx.fail(`an event emitted with the detail ${name} was heard ${got.length - n} times with ${String(got[n])}\n${JSON.stringify(t)}`);
		if (far !== (t.on ? n + 1 : 0)) ctx.fail(`an event emitted with the detail ${name} ${far ? "was heard more than once around" : "does not bubble, composed, out of"} its host\n${JSON.stringify(t)}`);
		ctx.step();
	});
	realm.document.removeEventListener("ping", hear);
	ctx.state(`${t.kind}|${t.d}|${t.env}|${t.on}`);
	src.dispose?.();
}

function undeclared(ctx, realm, t) {
	const d = dialect(t.kind);
	const src = createSource(t.kind, new Probe());
	const { igniteCore } = realm.api[KINDS[t.kind].lib]();
	const { jsx } = realm.api.jsxRuntime();
	setEnv(t.env);
	let args;
	const map = EVENT_MAPS[t.map];
	const register = igniteCore({
		source: src.source,
		...(map ? { events: map } : {}),
		commands: ({ emit, host, actor }) => ({ fire: (type, detail) => emit(type, detail), who: () => host, now: () => d.current(actor) }),
	});
	const tag = realm.tag("u");
	register(tag, (a) => {
		args = a;
		return jsx("p", { children: a.now() });
	});
	const el = realm.document.createElement(tag);
	realm.document.body.append(el);
	if (!t.on) el.remove();
	for (const name of [t.name, "ping", t.name]) {
		let heard = 0;
		const fn = () => heard++;
		el.addEventListener(name, fn);
		let threw = null;
		try {
			args.fire(name, { x: 1 });
		} catch (e) {
			threw = e;
		}
		el.removeEventListener(name, fn);
		const declared = name === "ping" && (t.map === "some" || t.map === "bare");
		const may = declared || t.env === "production";
		if (may && (threw || heard !== 1)) return ctx.fail(`emitting ${declared ? "a declared" : "an undeclared"} event ${JSON.stringify(name)} with NODE_ENV=${t.env} ${threw ? `threw ${threw}` : `was heard ${heard} times`}\n${JSON.stringify(t)}`);
		if (!may && (!(threw instanceof Error) || heard !== 0)) return ctx.fail(`emitting the undeclared event ${JSON.stringify(name)} with NODE_ENV=${t.env} ${threw ? "threw" : "did not throw"} and was heard ${heard} times\n${JSON.stringify(t)}`);
		ctx.step();
	}
	ctx.state(`${t.kind}|${t.map}|${t.name}|${t.env}|${t.on}`);
	src.dispose?.();
}

function shape(ctx, realm, t) {
	const d = dialect(t.kind);
	const src = createSource(t.kind, new Probe());
	const { igniteCore } = realm.api[KINDS[t.kind].lib]();
	const { jsx } = realm.api.jsxRuntime();
	const doc = realm.document;
	const good = realm.tag("g");
	const bad = realm.tag("b");
	const options = { source: src.source, states: (s) => ({ log: d.snapLog(s) }), commands: ({ actor }) => ({ cmd: (x, p) => d.command(actor, x, p) }) };
	const goodArgs = [];
	igniteCore(options)(good, (a) => {
		goodArgs.push(a);
		return jsx("p", { children: a.log });
	});
	const el = doc.createElement(good);
	doc.body.append(el);
	let early = null;
	if (t.how === "upgrade") {
		early = doc.createElement(bad);
		doc.body.append(early);
	}
	realm.takeErrors();
	let rendered = 0;
	let error = null;
	let made = early;
	try {
		igniteCore({ ...options, ...(t.states ? { states: BAD[t.states] } : { commands: BAD_COMMANDS[t.commands] }) })(bad, () => {
			rendered++;
			return jsx("p", { children: "half" });
		});
		if (t.how === "new") new (realm.window.customElements.get(bad))();
		else if (t.how === "create") {
			made = doc.createElement(bad);
			doc.body.append(made);
		} else if (t.how === "parse") {
			const div = doc.createElement("div");
			doc.body.append(div);
			div.innerHTML = `<${bad}></${bad}>`;
			made = div.firstElementChild;
		}
	} catch (e) {
		error = e;
	}
	const reported = realm.takeErrors();
	error ??= reported[0];
	const what = t.states ? `a states callback returning ${t.states}` : `a commands callback returning ${t.commands}`;
	if (!error) return ctx.fail(`${what} was accepted\n${JSON.stringify(t)}`);
	if (!(error instanceof Error || error?.name?.endsWith("Error"))) return ctx.fail(`${what} was rejected with ${String(error)}, not an error`);
	if (made) {
		// it must stay dead: nothing shown, nothing rendered by later events or moves
		made.dispatchEvent(new realm.window.CustomEvent("send", { detail: d.event("a", 1) }));
		doc.body.append(made);
		if (made.shadowRoot?.textContent || made.textContent) return ctx.fail(`${what} left an element showing something\n${JSON.stringify(t)}`);
	}
	if (rendered) return ctx.fail(`${what} still rendered\n${JSON.stringify(t)}`);
	// the valid component is unaffected
	realm.takeErrors();
	goodArgs.at(-1).cmd("b", 5);
	if (el.shadowRoot.textContent !== "b5") return ctx.fail(`after ${what} another component shows ${JSON.stringify(el.shadowRoot.textContent)}\n${JSON.stringify(t)}`);
	ctx.step();
	ctx.state(`${t.kind}|${what}|${t.how}`);
	src.dispose?.();
}
