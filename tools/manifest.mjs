// Regenerates MANIFEST.json from the checks that exist.
import fs from "node:fs";
const props = fs.readFileSync("properties.jsonl", "utf8").trim().split("\n").map((l) => JSON.parse(l));
const checks = [], na = [];
for (const p of props) {
	if (!fs.existsSync(`checks/${p.id}.mjs`)) { na.push({ property: p.id, reason: "check not built yet" }); continue; }
	const c = (await import(`../checks/${p.id}.mjs`)).default;
	checks.push({
		property: p.id,
		quick_cmd: `node bin/check.mjs ${p.id} quick`,
		thorough_cmd: `node bin/check.mjs ${p.id} thorough`,
		technique: c.technique ?? "exhaustive bounded exploration of the real code against a reference model",
		level: c.level ?? "model_checking",
		level_note: c.note ?? `Every execution within the bounds is run on the code bundled from /repo's working tree and compared with the oracle. Trusts: ${c.assumptions.join("; ")}.`,
	});
}
fs.writeFileSync("MANIFEST.json", `${JSON.stringify({ version: 1, setup_cmd: "node bin/setup.mjs", checks, not_applicable: na, notes: "No hooks in /repo: the checks bundle the unmodified sources. See DESIGN.md." }, null, 1)}\n`);
console.log(`${checks.length} checks, ${na.length} not claimed`);
