// node make.mjs DEF.mjs [id...]: turns definitions into /verif/seeded/<id> after confirming them in a scratch worktree.
import { execSync, spawnSync } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
const here = path.dirname(new URL(import.meta.url).pathname);
const defs = (await import(path.resolve(process.argv[2]))).default;
const only = process.argv.slice(3);
const W = "/tmp/seedwt";
const sh = (c, o = {}) => execSync(c, { encoding: "utf8", stdio: ["ignore", "pipe", "pipe"], maxBuffer: 1e8, ...o });
const rootCommit = sh("git -C /repo rev-list --max-parents=0 HEAD").trim();
if (!fs.existsSync(W)) {
	sh(`git -C /repo worktree add -f --detach ${W} HEAD`);
	fs.symlinkSync("/repo/node_modules", `${W}/node_modules`);
} else sh(`git -C ${W} checkout -q -f --detach $(git -C /repo rev-parse HEAD)`);
const build = fs.readFileSync("/opt/vp/build.sh", "utf8").replaceAll("cd /repo", `cd ${W}`);
const test = fs.readFileSync("/opt/vp/test.sh", "utf8").replaceAll("cd /repo", `cd ${W}`).replace("rm -rf node_modules/.vite node_modules/.vitest", "rm -rf");
fs.writeFileSync("/tmp/seed-build.sh", build);
fs.writeFileSync("/tmp/seed-test.sh", test);
const baseline = JSON.parse(fs.readFileSync("/opt/vp/BASELINE.json", "utf8"));
const stable = baseline.stable ?? baseline.passed ?? baseline;
for (const d of defs) {
	if (only.length && !only.includes(d.id)) continue;
	sh(`git -C ${W} checkout -q -- .`);
	const say = (s) => console.log(`${d.id} [${d.property}]: ${s}`);
	const out = `/verif/seeded/${d.id}`;
	let bad = null;
	const tmp = `/tmp/seed-${d.id}`;
	fs.rmSync(tmp, { recursive: true, force: true });
	fs.mkdirSync(tmp);
	fs.copyFileSync(path.join(here, "kit.mjs"), `${tmp}/kit.mjs`);
	fs.writeFileSync(`${tmp}/demo.mjs`, `${d.demo.trim()}\n`);
	fs.writeFileSync(`${tmp}/demo.sh`, `#!/bin/bash\n# exit 0 if the guarantee holds, non-zero if it is broken; run in the repository\n${d.env ? `export ${d.env}\n` : ""}exec node "$(dirname "$0")/demo.mjs"\n`, { mode: 0o755 });
	const clean = spawnSync("bash", [`${tmp}/demo.sh`], { cwd: W, encoding: "utf8", timeout: 280000 });
	if (clean.status !== 0) { say(`DEMO FAILS ON CLEAN: ${clean.stderr.slice(-600)}`); continue; }
	for (const e of d.edits) {
		const f = `${W}/${e.file}`;
		const s = fs.readFileSync(f, "utf8");
		const n = s.split(e.from).length - 1;
		if (n !== 1) { bad = `"${e.from.slice(0, 60)}" occurs ${n} times in ${e.file}`; break; }
		fs.writeFileSync(f, s.replace(e.from, () => e.to));
	}
	if (bad) { say(bad); continue; }
	const diff = sh(`git -C ${W} diff`);
	const minus = diff.split("\n").filter((l) => /^-(?!--)/.test(l)).map((l) => l.slice(1));
	const orig = new Set(d.edits.flatMap((e) => sh(`git -C /repo show ${rootCommit}:${e.file}`).split("\n")));
	if (!minus.some((l) => l.trim() && orig.has(l))) { say("touches no original line"); continue; }
	try { sh("bash /tmp/seed-build.sh"); } catch (e) { say(`DOES NOT BUILD ${String(e.stdout).slice(-500)}`); continue; }
	const p = spawnSync("bash", [`${tmp}/demo.sh`], { cwd: W, encoding: "utf8", timeout: 280000 });
	if (p.status === 0) { say("demo passes with the bug"); continue; }
	sh("bash /tmp/seed-test.sh /tmp/seed-o.json || true");
	const o = JSON.parse(fs.readFileSync("/tmp/seed-o.json", "utf8"));
	const passed = new Set(o.passed.map((x) => x.replace(`..${W}/`, "")));
	const missing = stable.filter((x) => !passed.has(x));
	if (missing.length) { say(`tests fail: ${missing.slice(0, 3).join(" ; ")}`); continue; }
	fs.rmSync(out, { recursive: true, force: true });
	fs.mkdirSync(out, { recursive: true });
	for (const f of ["kit.mjs", "demo.mjs", "demo.sh"]) fs.copyFileSync(`${tmp}/${f}`, `${out}/${f}`);
	fs.chmodSync(`${out}/demo.sh`, 0o755);
	fs.writeFileSync(`${out}/patch.diff`, diff);
	fs.writeFileSync(`${out}/meta.json`, `${JSON.stringify({ property: d.property, needs: d.needs, what_it_breaks: d.breaks }, null, 1)}\n`);
	const checks = [d.property, ...(d.also ?? [])];
	const res = checks.map((c) => {
		const t = Date.now();
		const r = spawnSync("node", ["bin/check.mjs", c, "quick"], { cwd: "/verif", encoding: "utf8", env: { ...process.env, VERIF_REPO: W }, timeout: 880000 });
		return `${c}:${r.status === 1 && r.stdout.includes(`VIOLATION property=${c}`) ? "CAUGHT" : `MISSED(${r.status})`} ${((Date.now() - t) / 1000).toFixed(0)}s`;
	});
	say(`kept; demo: ${p.stderr.trim().split("\n").pop().slice(0, 160)}; ${res.join(", ")}`);
	fs.rmSync(tmp, { recursive: true, force: true });
}
sh(`git -C ${W} checkout -q -- .`);
