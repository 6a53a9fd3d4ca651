// node auto.mjs FILE C01,C02,... [skip]: makes every first-order change of a few kinds to one source file, in a scratch
// worktree, and lists those that neither the checks nor the repository's tests notice.
import { execSync, spawnSync } from "node:child_process";
import fs from "node:fs";
import { createRequire } from "node:module";
const ts = createRequire("/repo/package.json")("typescript");
const [file, checkList, skip = "0"] = process.argv.slice(2);
const checks = checkList.split(",");
const W = "/tmp/automut";
const sh = (c) => execSync(c, { encoding: "utf8", stdio: ["ignore", "pipe", "pipe"], maxBuffer: 1e8 });
if (!fs.existsSync(W)) {
	sh(`git -C /repo worktree add -f --detach ${W} HEAD`);
	fs.symlinkSync("/repo/node_modules", `${W}/node_modules`);
} else sh(`git -C ${W} checkout -q -f --detach $(git -C /repo rev-parse HEAD)`);
fs.writeFileSync("/tmp/auto-test.sh", fs.readFileSync("/opt/vp/test.sh", "utf8").replaceAll("cd /repo", `cd ${W}`).replace("rm -rf node_modules/.vite node_modules/.vitest", "rm -rf"));
const baseline = JSON.parse(fs.readFileSync("/opt/vp/BASELINE.json", "utf8"));
const stable = baseline.stable ?? baseline.passed ?? baseline;
const path = `${W}/${file}`;
const text = fs.readFileSync(path, "utf8");
const src = ts.createSourceFile(file, text, ts.ScriptTarget.Latest, true, file.endsWith("js") ? ts.ScriptKind.JS : ts.ScriptKind.TS);
const out = [];
const K = ts.SyntaxKind;
const put = (node, to, what) => out.push({ from: node.getStart(src), to: node.getEnd(), text: to, what });
const OPS = { [K.AmpersandAmpersandToken]: "||", [K.BarBarToken]: "&&", [K.QuestionQuestionToken]: "&&", [K.EqualsEqualsEqualsToken]: "!==", [K.ExclamationEqualsEqualsToken]: "===", [K.GreaterThanToken]: ">=", [K.LessThanToken]: "<=", [K.PlusToken]: "-" };
(function go(n) {
	if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n)) return;
	if (ts.isExpressionStatement(n)) {
		const t = n.getText(src);
		if (!/debugLog|console\./.test(t) && !t.startsWith("super(")) put(n, ";", "delete");
	} else if (ts.isIfStatement(n)) {
		put(n.expression, "false", "if false");
		if (!/return|throw|continue/.test(n.thenStatement.getText(src)) || n.elseStatement) put(n.expression, "true", "if true");
	} else if (ts.isConditionalExpression(n)) {
		put(n, `(${n.whenTrue.getText(src)})`, "?: first");
		put(n, `(${n.whenFalse.getText(src)})`, "?: second");
	} else if (ts.isBinaryExpression(n) && OPS[n.operatorToken.kind]) {
		put(n.operatorToken, OPS[n.operatorToken.kind], "operator");
		if ([K.AmpersandAmpersandToken, K.BarBarToken].includes(n.operatorToken.kind)) {
			put(n, n.left.getText(src), "left only");
			put(n, n.right.getText(src), "right only");
		}
	} else if (n.kind === K.TrueKeyword && !ts.isLiteralTypeNode(n.parent)) put(n, "false", "true->false");
	else if (n.kind === K.FalseKeyword && !ts.isLiteralTypeNode(n.parent)) put(n, "true", "false->true");
	else if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ["trim", "toLowerCase", "sort", "reverse", "toUpperCase"].includes(n.expression.name.text)) put(n, n.expression.expression.getText(src), `no ${n.expression.name.text}`);
	else if (ts.isSpreadElement(n) && n.parent && ts.isArrayLiteralExpression(n.parent)) put(n, "", "no spread");
	ts.forEachChild(n, go);
})(src);
const seen = new Set();
let k = 0, killed = 0, tested = 0, survived = 0;
console.log(`${file}: ${out.length} changes, ${checks}`);
for (const m of out) {
	const mutated = text.slice(0, m.from) + m.text + text.slice(m.to);
	if (seen.has(mutated) || mutated === text) continue;
	seen.add(mutated);
	if (k++ < Number(skip)) continue;
	fs.writeFileSync(path, mutated);
	let by = null;
	for (const c of checks) {
		const r = spawnSync("node", ["bin/check.mjs", c, "quick"], { cwd: process.env.VERIF_DIR ?? "/verif", encoding: "utf8", env: { ...process.env, VERIF_REPO: W, VERIF_FAST: "1" }, timeout: 880000 });
		if (r.status !== 0) {
			by = `${c}${r.status === 1 ? "" : `(${r.status})`}`;
			break;
		}
	}
	const line = text.slice(0, m.from).split("\n").length;
	const label = `#${k - 1} L${line} ${m.what}: ${text.slice(m.from, m.to).replace(/\s+/g, " ").slice(0, 90)} => ${m.text.replace(/\s+/g, " ").slice(0, 60)}`;
	if (by) {
		killed++;
		if (by.includes("(")) console.log(`odd ${by} ${label}`);
		continue;
	}
	sh("bash /tmp/auto-test.sh /tmp/auto-o.json >/dev/null 2>&1 || true");
	const passed = new Set(JSON.parse(fs.readFileSync("/tmp/auto-o.json", "utf8")).passed.map((x) => x.replace(`..${W}/`, "")));
	if (stable.some((x) => !passed.has(x))) {
		tested++;
		console.log(`only the tests notice ${label}`);
	} else {
		survived++;
		console.log(`SURVIVED ${label}`);
	}
}
sh(`git -C ${W} checkout -q -- .`);
console.log(`${file}: killed ${killed}, only tests ${tested}, survived ${survived}`);
