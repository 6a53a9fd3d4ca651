// node mutants.mjs LIST.mjs [name...]: small changes without a demonstration; reports for each whether the
// repository's tests notice it (then it says nothing about the checks) and whether the property's check does.
import { execSync, spawnSync } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
const list = (await import(path.resolve(process.argv[2]))).default;
const only = process.argv.slice(3);
const W = "/tmp/mutwt";
const sh = (c) => execSync(c, { encoding: "utf8", stdio: ["ignore", "pipe", "pipe"], maxBuffer: 1e8 });
if (fs.existsSync(W)) sh(`git -C /repo worktree remove --force ${W}`);
sh(`git -C /repo worktree add -f --detach ${W} HEAD`);
fs.symlinkSync("/repo/node_modules", `${W}/node_modules`);
const test = fs.readFileSync("/opt/vp/test.sh", "utf8").replaceAll("cd /repo", `cd ${W}`).replace("rm -rf node_modules/.vite node_modules/.vitest", "rm -rf");
fs.writeFileSync("/tmp/mut-test.sh", test);
const baseline = JSON.parse(fs.readFileSync("/opt/vp/BASELINE.json", "utf8"));
const stable = baseline.stable ?? baseline.passed ?? baseline;
try {
	for (const { property, name, edits } of list) {
		if (only.length && !only.includes(name)) continue;
		sh(`git -C ${W} checkout -q -- .`);
		const say = (s) => console.log(`${property} ${name}: ${s}`);
		let bad = null;
		for (const [file, from, to] of edits) {
			const s = fs.readFileSync(`${W}/${file}`, "utf8");
			const n = s.split(from).length - 1;
			if (n !== 1) bad = `"${from.slice(0, 50)}" occurs ${n} times`;
			else fs.writeFileSync(`${W}/${file}`, s.replace(from, () => to));
		}
		if (bad) { say(bad); continue; }
		sh("bash /tmp/mut-test.sh /tmp/mut-o.json || true");
		const passed = new Set(JSON.parse(fs.readFileSync("/tmp/mut-o.json", "utf8")).passed.map((x) => x.replace(`..${W}/`, "")));
		const missing = stable.filter((x) => !passed.has(x));
		if (missing.length) { say(`the tests notice (${missing.length})`); continue; }
		const res = property.split("+").map((c) => {
			const r = spawnSync("node", ["bin/check.mjs", c, "quick"], { cwd: process.env.VERIF_DIR ?? "/verif", encoding: "utf8", env: { ...process.env, VERIF_REPO: W, VERIF_FAST: "1" }, timeout: 880000 });
			return `${c}:${r.status === 1 && r.stdout.includes(`VIOLATION property=${c}`) ? "CAUGHT" : `MISSED(${r.status})`}`;
		});
		say(res.join(" "));
	}
} finally {
	sh(`git -C /repo worktree remove --force ${W}`);
}
