import { Realm } from "./realm.mjs";

/** 53-bit string hash (cyrb53) */
export function hash(str) {
	let h1 = 0xdeadbeef, h2 = 0x41c6ce57;
	for (let i = 0; i < str.length; i++) {
		const ch = str.charCodeAt(i);
		h1 = Math.imul(h1 ^ ch, 2654435761);
		h2 = Math.imul(h2 ^ ch, 1597334677);
	}
	h1 = Math.imul(h1 ^ (h1 >>> 16), 2246822507) ^ Math.imul(h2 ^ (h2 >>> 13), 3266489909);
	h2 = Math.imul(h2 ^ (h2 >>> 16), 2246822507) ^ Math.imul(h1 ^ (h1 >>> 13), 3266489909);
	return 4294967296 * (2097151 & h2) + (h1 >>> 0);
}

const TRACE_BYTES = 8192;
export const SAB_BYTES = 16 + TRACE_BYTES;

export class Ctx {
	constructor({ check, tier, shard, shards, bundleFile, scratch, sab }) {
		Object.assign(this, { check, tier, shard, shards, bundleFile, scratch });
		this.counters = new Int32Array(sab, 0, 4);
		this.traceBytes = new Uint8Array(sab, 16);
		this.encoder = new TextEncoder();
		this.states = new Set();
		this.outcomes = new Set();
		this.transitions = 0;
		this.executions = 0;
		this.extra = {};
		this.violations = [];
		this.sigs = new Set();
		this.samples = [];
		this.known = new Map();
		this._realm = null;
		this._uses = 0;
		this.truncated = false;
	}
	enter(trace) {
		this.trace = trace;
		this.executions++;
		Atomics.add(this.counters, 0, 1);
		const text = JSON.stringify(trace) ?? "null";
		const { written } = this.encoder.encodeInto(text.slice(0, TRACE_BYTES - 4), this.traceBytes);
		this.traceBytes[written] = 0;
		if (this.samples.length < 3 && (this.executions === 1 || this.executions === 7 || this.executions === 50)) this.samples.push(trace);
	}
	beat() {
		Atomics.add(this.counters, 0, 1);
	}
	state(key) {
		this.states.add(hash(key));
	}
	outcome(key) {
		this.outcomes.add(hash(key));
	}
	step(n = 1) {
		this.transitions += n;
	}
	count(name, n = 1) {
		this.extra[name] = (this.extra[name] ?? 0) + n;
	}
	/** report that the property does not hold on this trace */
	fail(message, { trace = this.trace, sig } = {}) {
		const key = sig ?? message;
		if (this.sigs.has(key)) return;
		this.sigs.add(key);
		this.violations.push({ message, trace, sig: sig ?? null });
	}
	/** A realm reused for at most `uses` executions. */
	realm(uses = 150, opts) {
		if (!this._realm || this._uses >= uses) {
			this.closeRealm();
			this._realm = new Realm(this.bundleFile, opts);
			this._uses = 0;
			this.onRealm?.(this._realm);
		}
		this._uses++;
		return this._realm;
	}
	freshRealm(opts) {
		this.closeRealm();
		return this.realm(1, opts);
	}
	closeRealm() {
		if (this._realm) this._realm.close();
		this._realm = null;
	}
	result() {
		return {
			states: this.states,
			outcomes: this.outcomes,
			transitions: this.transitions,
			executions: this.executions,
			extra: this.extra,
			violations: this.violations,
			samples: this.samples,
			truncated: this.truncated,
		};
	}
}
