// node tools/design.mjs RESULTS: DESIGN.md = tools/design.md + the table of planted bugs (RESULTS: output of tools/seeds/run.mjs)
import fs from "node:fs";
const lines = fs.readFileSync(process.argv[2] ?? "tools/seeds/results.txt", "utf8").trim().split("\n").map((l) => /^(\S+) \[(\S+)\] (CAUGHT|MISSED) by (.*?)\s*$/.exec(l)).filter(Boolean);
let out = fs.readFileSync("tools/design.md", "utf8");
out += "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n";
for (const [, id, p, , by] of lines.sort((a, b) => (a[1] < b[1] ? -1 : 1))) {
	if (!fs.existsSync(`seeded/${id}/meta.json`)) continue;
	const m = JSON.parse(fs.readFileSync(`seeded/${id}/meta.json`, "utf8"));
	out += `| ${id} | ${p} | ${m.what_it_breaks.replaceAll("|", "\\|")} | ${by === "-" ? "**missed**" : by} |\n`;
}
fs.writeFileSync("DESIGN.md", out);
