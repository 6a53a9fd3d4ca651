// node run.mjs [--all] [id...]: runs the property's check (--all: every check) against each planted bug, in a scratch worktree.
import { execSync, spawnSync } from "node:child_process";
import fs from "node:fs";
const args = process.argv.slice(2);
const all = args.includes("--all");
const only = args.filter((a) => !a.startsWith("--"));
const W = "/tmp/seedrun";
const sh = (c) => execSync(c, { encoding: "utf8", stdio: ["ignore", "pipe", "pipe"] });
if (fs.existsSync(W)) sh(`git -C /repo worktree remove --force ${W}`);
sh(`git -C /repo worktree add -f --detach ${W} HEAD`);
fs.symlinkSync("/repo/node_modules", `${W}/node_modules`);
const ids = fs.readdirSync("/verif/seeded").filter((d) => !only.length || only.includes(d));
const checks = JSON.parse(fs.readFileSync("/verif/MANIFEST.json", "utf8")).checks.map((c) => c.property_id ?? c.property ?? c.id);
try {
	for (const id of ids) {
		const { property } = JSON.parse(fs.readFileSync(`/verif/seeded/${id}/meta.json`, "utf8"));
		sh(`git -C ${W} checkout -q -- .`);
		try {
			sh(`git -C ${W} apply /verif/seeded/${id}/patch.diff`);
		} catch {
			console.log(`${id}: patch does not apply`);
			continue;
		}
		const caught = [];
		const other = [];
		for (const c of all ? checks : [property]) {
			const r = spawnSync("node", ["bin/check.mjs", c, "quick"], { cwd: "/verif", encoding: "utf8", env: { ...process.env, VERIF_REPO: W }, timeout: 880000 });
			if (r.status === 1 && r.stdout.includes(`VIOLATION property=${c}`)) caught.push(c);
			else if (r.status !== 0) other.push(`${c}:rc${r.status}`);
		}
		console.log(`${id} [${property}] ${caught.includes(property) ? "CAUGHT" : "MISSED"} by ${caught.join(" ") || "-"} ${other.join(" ")}`);
	}
} finally {
	sh(`git -C /repo worktree remove --force ${W}`);
}
