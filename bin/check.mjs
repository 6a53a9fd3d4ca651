#!/usr/bin/env node
// node bin/check.mjs <PROPERTY> <quick|thorough> [--replay FILE]
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { fileURLToPath } from "node:url";
import v8 from "node:v8";
import { Worker } from "node:worker_threads";
import { bundle } from "../lib/build.mjs";
import { SAB_BYTES } from "../lib/ctx.mjs";

const ROOT = path.resolve(path.dirname(fileURLToPath(import.meta.url)), "..");
const started = Date.now();
const [id, tierArg, ...rest] = process.argv.slice(2);
const tier = tierArg === "thorough" ? "thorough" : "quick";
const replayFile = rest[0] === "--replay" ? rest[1] : null;
const STALL_MS = 120_000;
v8.setFlagsFromString("--expose-gc"); // for the workers, before any of them starts

const scratch = fs.mkdtempSync(path.join(os.tmpdir(), `verif-${id}-`));
const cleanup = () => fs.rmSync(scratch, { recursive: true, force: true });
process.on("exit", cleanup);
for (const s of ["SIGINT", "SIGTERM"]) process.on(s, () => process.exit(2));

function knownFindings() {
	const file = path.join(ROOT, "known-findings.txt");
	const out = [];
	if (!fs.existsSync(file)) return out;
	for (const line of fs.readFileSync(file, "utf8").split("\n")) {
		const m = /^known: property=(\S+) key=(\S+) (.*)$/.exec(line.trim());
		if (m) out.push({ property: m[1], key: m[2], text: m[3] });
	}
	return out;
}

async function main() {
	const check = (await import(`../checks/${id}.mjs`)).default;
	const bundleFile = path.join(scratch, "bundle.cjs");
	if (check.bundle !== false) await bundle(bundleFile, check.bundle ?? {});
	const replay = replayFile ? [JSON.parse(fs.readFileSync(replayFile, "utf8")).trace] : null;
	const shards = replay ? 1 : Math.max(1, Math.min(check.maxShards ?? 8, Number(process.env.VERIF_JOBS) || os.availableParallelism()));

	const results = await Promise.all(
		Array.from({ length: shards }, (_, shard) => runShard(shard)),
	);

	function runShard(shard) {
		return new Promise((resolve) => {
			const sab = new SharedArrayBuffer(SAB_BYTES);
			const counters = new Int32Array(sab, 0, 4);
			const currentTrace = () => {
				const bytes = new Uint8Array(sab, 16);
				const end = bytes.indexOf(0);
				try {
					return JSON.parse(Buffer.from(bytes.slice(0, end)).toString());
				} catch {
					return Buffer.from(bytes.slice(0, end)).toString();
				}
			};
			const worker = new Worker(new URL("../lib/worker.mjs", import.meta.url), {
				workerData: { id, tier, shard, shards, bundleFile, scratch, sab, replay },
				...(check.execArgv ? { execArgv: [...process.execArgv, ...check.execArgv] } : {}),
				resourceLimits: { maxOldGenerationSizeMb: 3072 },
			});
			let last = -1;
			let lastAt = Date.now();
			const timer = setInterval(() => {
				const now = Atomics.load(counters, 0);
				if (now !== last) {
					last = now;
					lastAt = Date.now();
				} else if (Date.now() - lastAt > STALL_MS && now > 0) {
					finish({ broken: true, violations: [{ message: "does not terminate: no progress for 120 s on this trace", trace: currentTrace(), sig: null }] });
					worker.terminate();
				}
			}, 1000);
			let done = false;
			function finish(r) {
				if (done) return;
				done = true;
				clearInterval(timer);
				resolve(r);
			}
			worker.on("message", (r) => {
				if (process.env.VERIF_FAST && r.violations?.some((v) => !v.sig)) {
					console.log(`VIOLATION property=${id} replay=none`);
					console.log(`  ${r.violations[0].message.split("\n")[0].slice(0, 300)}`);
					process.exit(1);
				}
				finish(r);
			});
			worker.on("error", (e) => {
				if (e?.code === "ERR_WORKER_OUT_OF_MEMORY" && Atomics.load(counters, 0) > 0) {
					finish({ broken: true, violations: [{ message: "memory exhausted on this trace", trace: currentTrace(), sig: null }] });
				} else if (Atomics.load(counters, 0) > 0) {
					finish({ broken: true, violations: [{ message: `uncaught error on this trace: ${e?.stack ?? e}`, trace: currentTrace(), sig: null }] });
				} else finish({ crash: String(e?.stack ?? e) });
			});
			worker.on("exit", () => finish({ crash: "worker ended without a result" }));
		});
	}

	const crash = results.find((r) => r.crash);
	if (crash) {
		console.error(`check ${id}: harness error\n${crash.crash}`);
		process.exit(2);
	}

	const states = new Set();
	const outcomes = new Set();
	let transitions = 0;
	let executions = 0;
	const extra = {};
	const samples = [];
	const violations = [];
	let complete = true;
	for (const r of results) {
		for (const v of r.violations) violations.push(v);
		if (r.broken) {
			complete = false;
			continue;
		}
		for (const s of r.states) states.add(s);
		for (const s of r.outcomes) outcomes.add(s);
		transitions += r.transitions;
		executions += r.executions;
		for (const [k, v] of Object.entries(r.extra)) extra[k] = (extra[k] ?? 0) + v;
		if (samples.length < 6) samples.push(...r.samples.slice(0, 2));
		if (r.truncated) complete = false;
	}

	const known = knownFindings().filter((k) => k.property === id);
	const seenKnown = new Set();
	const fresh = [];
	for (const v of violations) {
		const k = v.sig && known.find((k) => k.key === v.sig);
		if (k) seenKnown.add(k);
		else fresh.push(v);
	}
	for (const k of seenKnown) console.log(`KNOWN-FINDING: property=${id} ${k.text}`);

	const evidenceDir = path.join(ROOT, "evidence");
	fs.mkdirSync(evidenceDir, { recursive: true });
	const replayDir = path.join(evidenceDir, "replays");
	const distinct = new Map();
	for (const v of fresh) if (!distinct.has(v.message)) distinct.set(v.message, v);
	let n = 0;
	for (const v of distinct.values()) {
		if (n >= 5) break;
		fs.mkdirSync(replayDir, { recursive: true });
		const file = path.join(replayDir, `${id}-${n}.json`);
		fs.writeFileSync(file, `${JSON.stringify({ property: id, message: v.message, trace: v.trace, replay: `node bin/check.mjs ${id} ${tier} --replay ${file}` }, null, 1)}\n`);
		console.log(`VIOLATION property=${id} replay=${file}`);
		console.log(`  ${v.message.split("\n").slice(0, 6).join("\n  ").slice(0, 1500)}`);
		console.log(`  trace: ${JSON.stringify(v.trace).slice(0, 600)}`);
		n++;
	}

	const wall = (Date.now() - started) / 1000;
	const evidence = {
		property: id,
		tier,
		seed: Number(process.env.VERIF_SEED ?? 1) || 1,
		level: check.level ?? "model_checking",
		coverage: {
			states: states.size,
			transitions,
			traces_validated_against_impl: executions,
			distinct_outcomes: outcomes.size,
			samples: samples.slice(0, 6),
			bounds: typeof check.bounds === "function" ? check.bounds(tier) : check.bounds,
			exhaustive: complete,
			...extra,
		},
		assumptions: check.assumptions ?? [],
		wall_s: wall,
		violations: fresh.length,
	};
	if (!replay) fs.writeFileSync(path.join(evidenceDir, `${id}.json`), `${JSON.stringify(evidence, null, 1)}\n`);
	console.log(
		`${id} ${tier}: executions=${executions} transitions=${transitions} states=${states.size} outcomes=${outcomes.size} violations=${fresh.length} known=${seenKnown.size} wall=${wall.toFixed(1)}s`,
	);
	process.exit(fresh.length ? 1 : 0);
}

main().catch((e) => {
	console.error(e);
	process.exit(2);
});
