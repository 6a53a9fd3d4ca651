import vm from "node:vm";
import { parentPort, workerData } from "node:worker_threads";
import { Ctx } from "./ctx.mjs";

const { id, tier, shard, shards, bundleFile, scratch, sab, replay } = workerData;
const check = (await import(`../checks/${id}.mjs`)).default;
const ctx = new Ctx({ check, tier, shard, shards, bundleFile, scratch, sab });

// VERIF_FAST (used when trying out planted bugs): the first violation is enough
const MAX_VIOLATIONS = process.env.VERIF_FAST ? 1 : 12;
// objects reached through weak references stay alive until the event loop turns
const { setImmediate: realImmediate } = globalThis;
const turn = () => new Promise((r) => realImmediate(r));

// closed realms would otherwise pile up until the heap limit comes into sight (bin/check.mjs exposes gc)
const collect = vm.runInNewContext("gc");
const GC_EVERY_MS = 2500;
let collectedAt = Date.now();

async function runOne(trace) {
	ctx.enter(trace);
	const before = ctx.violations.length;
	try {
		const r = check.exec(ctx, trace);
		if (r && typeof r.then === "function") await r;
	} catch (e) {
		ctx.fail(`exception while executing: ${e?.stack ?? e}`, { trace });
	}
	return ctx.violations.length > before;
}

try {
	if (check.init) await check.init(ctx);
	if (replay) {
		for (const t of replay) await runOne(t);
	} else {
		let i = 0;
		for (const trace of check.cases(tier, ctx)) {
			if (i++ % shards !== shard) continue;
			await runOne(trace);
			if (ctx.executions % 200 === 0) {
				await turn();
				if (Date.now() - collectedAt > GC_EVERY_MS) {
					collect();
					await turn();
					collectedAt = Date.now();
				}
			}
			if (ctx.violations.length >= MAX_VIOLATIONS) {
				ctx.truncated = true;
				break;
			}
		}
	}
	ctx.closeRealm();
	parentPort.postMessage(ctx.result());
} catch (e) {
	ctx.closeRealm();
	parentPort.postMessage({ crash: String(e?.stack ?? e) });
}
