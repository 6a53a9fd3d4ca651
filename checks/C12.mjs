// The adapter contract, under every call sequence, including calls made from inside a notification.
import { createSource, DELAY, dialect, KINDS, Probe } from "../lib/sources.mjs";
import { libs } from "../lib/realm.mjs";

const FACADE = Object.keys(KINDS).filter((k) => KINDS[k].lib !== "custom");
const LISTENERS = 2;

// operations on two adapters over one source (shared kinds) or one blueprint (isolated kinds):
// ["sub",a,l] ["uns",a,l] ["send",a] ["out",a] (the source is changed directly) ["read",a] ["stop",a] ["new",a]
function clone(m) {
	return { ...m, ad: m.ad.map((x) => ({ ...x, subs: [...x.subs] })) };
}
function start(kind) {
	return { kind, shared: KINDS[kind].shared, ad: [0, 1].map(() => ({ used: false, stopped: false, subs: Array(LISTENERS).fill("none") })) };
}
function advance(m, op) {
	const n = clone(m);
	const x = n.ad[op[1]];
	x.used = true;
	if (op[0] === "dly") n.waiting = true;
	if (op[0] === "sub" && !x.stopped) x.subs[op[2]] = "on";
	else if (op[0] === "sub") x.late = true;
	else if (op[0] === "uns") x.subs[op[2]] = "off";
	else if (op[0] === "stop") {
		x.stopped = true;
		x.subs = x.subs.map((s) => (s === "on" ? "cut" : s));
	} else if (op[0] === "new") {
		x.stopped = false;
		x.subs = x.subs.map(() => "none");
	}
	return n;
}
// machines: ["fin",a] the machine reaches its end, ["dly",a] a delayed transition starts, ["tick"] time passes
function* enabledX(m) {
	yield* enabled(m);
	for (const a of [0, 1]) {
		if (a === 1 && !m.ad[0].used) continue;
		yield ["fin", a];
		yield ["dly", a];
	}
	if (m.waiting) yield ["tick", 0];
}
function* enabled(m) {
	for (const a of [0, 1]) {
		if (a === 1 && !m.ad[0].used) continue;
		const x = m.ad[a];
		for (let l = 0; l < LISTENERS; l++) {
			if (x.subs[l] === "none" || (x.subs[l] === "off" && !x.stopped)) {
				if (l === 0 || x.subs[l - 1] !== "none") yield ["sub", a, l];
			}
			if (x.subs[l] === "on" || x.subs[l] === "cut" || x.subs[l] === "off") yield ["uns", a, l];
		}
		yield ["send", a];
		if (!m.shared || a === 0) yield ["out", a];
		yield ["read", a];
		yield ["stop", a];
		if (x.stopped && m.shared) yield ["new", a];
	}
}
function* histories(kind, depth, first = [], next = enabled) {
	function* go(m, ops) {
		if (ops.length === depth) {
			yield ops;
			return;
		}
		for (const op of next(m)) yield* go(advance(m, op), [...ops, op]);
	}
	let m = start(kind);
	for (const op of first) m = advance(m, op);
	yield* go(m, first);
}
const noisy = (ops) => ops.some((o) => o[0] === "sub") && ops.some((o) => o[0] === "send" || o[0] === "out" || o[0] === "stop");

const REACTIONS = [["uns", 0, 0], ["uns", 0, 1], ["uns", 1, 0], ["stop", 0], ["stop", 1], ["send", 0], ["out", 0], ["sub", 0, 1], ["sub", 1, 0], ["read", 0]];

export default {
	id: "C12",
	bounds: (tier) => {
		const d = tier === "thorough" ? 6 : 5;
		return `7 kinds x 2 adapters x ${LISTENERS} listeners each: every sequence of ${d} calls (subscribe, unsubscribe also late or repeated, send, direct source change, read, stop, new adapter after stop); every sequence of ${d - 1} calls with each of ${REACTIONS.length} calls made from inside the first or second notification of a listener; for machines and actors also every sequence of ${d - 1} calls with delayed transitions, time steps and final states; for MobX also every pair of calls inside a batch after every sequence of ${d - 3}`;
	},
	assumptions: ["listeners are distinct functions", "when a change is made from inside a notification, a listener may see only the newest state"],
	*cases(tier) {
		const d = tier === "thorough" ? 6 : 5;
		for (const kind of FACADE) {
			for (const ops of histories(kind, d)) if (noisy(ops)) yield { kind, ops };
			for (const ops of histories(kind, d - 1)) {
				if (!ops.some((o) => o[0] === "sub" && o[1] === 0 && o[2] === 0)) continue;
				for (const at of [1, 2]) for (const r of REACTIONS) yield { kind, ops, react: { at, r } };
			}
			if (KINDS[kind].lib === "xstate") {
				for (const ops of histories(kind, d - 1, [["sub", 0, 0]], enabledX)) if (ops.some((o) => ["fin", "dly"].includes(o[0]))) yield { kind, ops, x: true };
			}
			if (KINDS[kind].lib === "mobx") {
				for (const ops of histories(kind, d - 1)) {
					if (!noisy(ops)) continue;
					for (const len of [2, 3]) yield { kind, ops, batch: len };
				}
			}
		}
	},
	exec(ctx, t) {
		const realm = ctx.realm(400);
		const d = dialect(t.kind);
		const lib = KINDS[t.kind].lib;
		const shared = KINDS[t.kind].shared;
		const probe = new Probe();
		const src = createSource(t.kind, probe);
		const make = realm.api[`${lib}Adapter`]().default;
		let n = 0;
		const seq = []; // every notification: [subscription, log]
		let reactLeft = t.react ? { ...t.react } : null;
		const relaxed = Boolean(t.react || t.batch);
		const factories = shared ? [make(src.source), make(src.source)] : (() => { const f = make(src.source); return [f, f]; })();
		const ad = [0, 1].map((a) => ({ factory: factories[a], adapter: factories[a](), stopped: false, frozen: null, handles: [], slots: Array(LISTENERS).fill(null) }));
		for (const x of ad) x.actor = x.factory.resolveCommandActor(x.adapter);
		const subs = []; // all subscriptions ever: {a,l,on,told:[]}
		let trouble = null;
		const fail = (msg) => {
			trouble ??= msg;
		};
		const truth = (a) => (shared ? src.log() : ad[a].stopped && lib === "xstate" ? ad[a].frozen : d.current(ad[a].actor));
		const modeOf = (a) => (lib !== "xstate" ? "" : shared ? src.source.getSnapshot().value : d.mode(ad[a].actor));
		const full = (a) => `${truth(a)}|${modeOf(a)}`;
		// every log a source has had, for "is a real state"
		const doOp = (op) => {
			const x = ad[op[1]];
			switch (op[0]) {
				case "sub": {
					const sub = { a: op[1], l: op[2], on: !x.stopped, told: [], changes: 0, initial: null, starting: true };
					subs.push(sub);
					const was = x.stopped;
					const before = truth(op[1]);
					let handle = null;
					let threw = null;
					try {
						handle = x.adapter.subscribe((state) => {
							const log = d.logOf(state);
							if (!sub.on) fail(`a listener was told ${JSON.stringify(log)} after it unsubscribed or its adapter was stopped`);
							if (sub.told.length && !log.startsWith(sub.told.at(-1))) fail(`a listener was told ${JSON.stringify(log)} after ${JSON.stringify(sub.told.at(-1))}`);
							const real = truth(sub.a);
							if (!real.startsWith(log)) fail(`a listener was told ${JSON.stringify(log)} while the source held ${JSON.stringify(real)}`);
							sub.told.push(log);
							sub.full = `${log}|${d.modeOf?.(state) ?? ""}`;
							seq.push(subs.indexOf(sub));
							if (reactLeft && sub.a === 0 && sub.l === 0 && --reactLeft.at === 0) {
								const r = reactLeft.r;
								reactLeft = null;
								if (allowed(r)) doOp(r);
							}
						});
					} catch (e) {
						threw = e;
					}
					sub.starting = false;
					if (was) {
						if (sub.told.length) fail("subscribing to a stopped adapter reported a state");
						sub.on = false;
					} else {
						if (threw) return fail(`subscribe threw ${threw.stack ?? threw}`);
						if (!sub.told.length) fail("a new subscriber was not told the current state at once");
						else if (!t.batch && sub.told[0] !== before) fail(`a new subscriber was first told ${JSON.stringify(sub.told[0])}, the state was ${JSON.stringify(before)}`);
						if (!relaxed && sub.told.length !== 1) fail(`a new subscriber was told ${sub.told.length} states at once`);
					}
					x.slots[op[2]] = { sub, handle };
					break;
				}
				case "uns": {
					const s = x.slots[op[2]];
					if (!s) break;
					s.sub.on = false;
					s.handle?.unsubscribe();
					break;
				}
				case "send": {
					const p = n++;
					const before = truth(op[1]);
					const was = x.stopped;
					x.adapter.send(d.event("a", p));
					const now = truth(op[1]);
					if (was) {
						if (now !== before) fail(`a stopped adapter applied an event: ${JSON.stringify(before)} became ${JSON.stringify(now)}`);
					} else if (!t.react && !t.batch && !(modeOf(op[1]) === "over" && now === before) && now !== `${before}a${p}`) fail(`sending an event turned ${JSON.stringify(before)} into ${JSON.stringify(now)}`);
					break;
				}
				case "fin":
				case "dly":
					x.adapter.send(d.event(op[0] === "fin" ? "f" : "d", op[0] === "fin" ? n++ : undefined));
					break;
				case "tick":
					realm.tick(DELAY);
					break;
				case "out": {
					const p = n++;
					if (shared) src.outside("b", p);
					else d.command(x.actor, "b", p);
					break;
				}
				case "read": {
					const state = x.adapter.getState();
					const log = d.logOf(state);
					const want = x.stopped ? x.frozen : truth(op[1]);
					if (log !== want && !(reacting() && want.startsWith(log))) fail(`reading returned ${JSON.stringify(log)} instead of ${JSON.stringify(want)} (adapter ${x.stopped ? "stopped" : "running"})`);
					if (!x.stopped) {
						const given = d.snapLog(x.factory.resolveStateSnapshot(x.adapter));
						if (given !== want && !(reacting() && want.startsWith(given))) fail(`the state for the states callback is ${JSON.stringify(given)} instead of ${JSON.stringify(want)}`);
					}
					break;
				}
				case "stop": {
					if (!x.stopped) {
						x.frozen = truth(op[1]);
						x.stopped = true;
						for (const s of subs) if (s.a === op[1]) s.on = false;
					}
					x.adapter.stop();
					break;
				}
				case "new": {
					const old = x.adapter;
					x.adapter = x.factory();
					x.actor = x.factory.resolveCommandActor(x.adapter);
					if (x.adapter === old) fail("after stopping, the factory returned the stopped adapter again");
					(x.olds ??= []).push([old, x.frozen]);
					x.stopped = false;
					x.slots = Array(LISTENERS).fill(null);
					break;
				}
			}
		};
		let depth = 0;
		const reacting = () => depth > 1 || Boolean(t.batch);
		const allowed = (r) => {
			const x = ad[r[1]];
			if (r[0] === "sub") return !x.slots[r[2]] && !x.stopped && !(r[1] === 0 && r[2] === 0);
			if (r[0] === "uns") return Boolean(x.slots[r[2]]);
			return true;
		};
		const step = (op, s) => {
			const before = subs.map((x) => ({ sub: x, on: x.on, told: x.told.length }));
			const was = [0, 1].map((a) => full(a));
			depth++;
			doOp(op);
			depth--;
			if (!relaxed) {
				for (const b of before) {
					const got = b.sub.told.length - b.told;
					const changed = full(b.sub.a) !== was[b.sub.a];
					const want = b.on && b.sub.on && changed ? 1 : 0;
					// XState also reports events that changed nothing
					const idle = t.x && b.on && b.sub.on && !changed && got === 1;
					if (got !== want && !idle) fail(`listener ${b.sub.l} of adapter ${b.sub.a} was told ${got} states instead of ${want} by ${JSON.stringify(op)}`);
				}
			}
			ctx.step();
			ctx.state(`${t.kind}|${ad.map((x, a) => `${x.stopped}${truth(a).replace(/\d/g, "")}${x.slots.map((q) => (q ? (q.sub.on ? "+" : "-") : "."))}`)}`);
		};
		const rest = () => {
			for (const s of subs) if (s.on && s.full !== full(s.a)) fail(`at rest listener ${s.l} of adapter ${s.a} was last told ${JSON.stringify(s.full)}, the state is ${JSON.stringify(full(s.a))}`);
		};
		let s = 0;
		while (s < t.ops.length && !trouble) {
			if (t.batch && s === t.ops.length - t.batch) {
				libs.mobx.runInAction(() => {
					while (s < t.ops.length) step(t.ops[s++]);
				});
			} else step(t.ops[s++]);
			if (!trouble) rest();
		}
		if (!trouble) {
			// reads at the end, and everything still alive still works
			for (const a of [0, 1]) {
				doOp(["read", a]);
				for (const [old, frozen] of ad[a].olds ?? []) if (d.logOf(old.getState()) !== frozen) fail("reading a stopped adapter no longer returns the state at the time of stopping");
			}
			reactLeft = null;
			const last = subs.map((x) => x.told.length);
			const on = subs.map((x) => x.on);
			const was = [0, 1].map((a) => truth(a));
			for (const a of shared ? [0] : [0, 1]) if (!ad[a].stopped || lib !== "xstate" || shared) doOp(["out", a]);
			subs.forEach((x, i) => {
				const got = x.told.length - last[i];
				const want = on[i] && truth(x.a) !== was[x.a] ? 1 : 0;
				if (got !== want && !(t.x && on[i] && got === 1)) fail(`finally, listener ${x.l} of adapter ${x.a} was told ${got} states instead of ${want} for one change`);
			});
			const over = modeOf(0) === "over";
			if (shared && !over && src.log() === was[0]) fail("the user's source no longer works");
			if (shared && !over && !src.healthy()) fail("the user's source was stopped");
			for (const a of [0, 1]) {
				if (ad[a].stopped && d.logOf(ad[a].adapter.getState()) !== ad[a].frozen) fail("reading a stopped adapter no longer returns the state at the time of stopping");
			}
		}
		if (trouble) ctx.fail(`${trouble}\n in ${JSON.stringify(t)}`);
		for (const x of ad) x.adapter.stop();
		src.dispose?.();
		realm.takeLogs();
		realm.takeErrors();
		realm.clock.pending.clear();
	},
};
