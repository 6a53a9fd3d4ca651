// The beta release script, run for real with stand-ins for git, npm and pnpm, under every combination of failures.
import { execFileSync, spawn } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
import { REPO } from "../lib/build.mjs";
import { product, subsets } from "../lib/enum.mjs";

const GATES = ["clean", "auth", "status", "test", "build", "version", "install"];
const STEPS = [...GATES, "publish"];
const OPT = "911911";
const ENV = "822822";
const TYPED = "733733";
const OTPS = {
	skip: { args: ["--skip-otp"] },
	option: { args: [`--otp=${OPT}`], want: OPT },
	padded: { args: [`--otp= ${OPT} `], want: OPT },
	env: { env: ENV, want: ENV },
	both: { args: [`--otp=${OPT}`], env: ENV, want: OPT },
	emptyOption: { args: ["--otp="], env: ENV, want: ENV },
	typed: { stdin: `${TYPED}\n`, want: TYPED },
	typedPadded: { stdin: `  ${TYPED}  \nmore\n`, want: TYPED },
	blank: { stdin: "\n" },
	end: { stdin: "", mayAbort: true },
	partial: { stdin: TYPED, want: TYPED, mayAbort: true },
	emptyThenTyped: { args: ["--otp="], stdin: `${TYPED}\n`, want: TYPED },
	skipBoth: { args: ["--skip-otp", `--otp=${OPT}`], env: ENV, open: true },
};
const FAKE = `#!/bin/sh
name=\${0##*/}
case "$name $*" in
git*" status"*|git*" diff"*|git*" ls-files"*|git*" update-index"*) key=clean ;;
git*) key=show ;;
"npm whoami"*) key=auth ;;
*publish*) key=publish ;;
*changeset*status*) key=status ;;
*changeset*version*) key=version ;;
*test*) key=test ;;
*build*) key=build ;;
*install*) key=install ;;
*) key=other ;;
esac
printf '%s|%s|%s|%s\\n' "$key" "$name" "$*" "$NPM_CONFIG_OTP$npm_config_otp" >> "$FAKE_LOG"
case ",$FAKE_FAIL," in
*",$key,"*)
	case "$FAKE_CODE" in
	kill) kill -9 $$ ;;
	esac
	exit "$FAKE_CODE" ;;
esac
case "$key $1" in
clean*|show*)
	# the real git runs only in the scratch tree this script was started in
	case "$1" in
	--no-pager|-c|status|diff|ls-files|update-index|rev-parse|log|show|describe|branch|add|rm|commit|stash|checkout|reset|restore|clean|symbolic-ref|diff-index|diff-files) [ "$PWD" = "$FAKE_TREE" ] && exec "$REAL_GIT" "$@" ;;
	esac ;;
esac
case "$key" in
auth) printf 'someone\\n' ;;
esac
exit 0
`;

/** real working trees: what makes each of them dirty (the first two are clean) */
const TREES = {
	clean: () => {},
	ignored: (d) => {
		fs.mkdirSync(path.join(d, "dist"));
		fs.writeFileSync(path.join(d, "dist/a.js"), "1");
	},
	modified: (d) => fs.writeFileSync(path.join(d, "src/a.ts"), "2"),
	untracked: (d) => fs.writeFileSync(path.join(d, "new.txt"), "1"),
	untrackedDeep: (d) => {
		fs.mkdirSync(path.join(d, "src/deep"));
		fs.writeFileSync(path.join(d, "src/deep/new.ts"), "1");
	},
	deleted: (d) => fs.rmSync(path.join(d, "readme.md")),
	stagedDelete: (d, git) => git("rm", "-q", "src/b.ts"),
	stagedNew: (d, git) => {
		fs.writeFileSync(path.join(d, "x"), "1");
		git("add", "x");
	},
	renamed: (d, git) => git("mv", "src/a.ts", "src/c.ts"),
	mode: (d) => fs.chmodSync(path.join(d, "src/b.ts"), 0o755),
	staged: (d, git) => {
		fs.writeFileSync(path.join(d, "package.json"), "{}");
		git("add", ".");
	},
};
const isDirty = (tree) => tree !== "clean" && tree !== "ignored";

function* cases(tier) {
	const all = [...subsets(STEPS)];
	for (const fail of all) for (const dry of [false, true]) for (const otp of tier === "thorough" ? ["option", "env", "typed", "end", "skip"] : ["option", "typed"]) yield { fail, dry, otp, code: "1", dirty: "clean", ci: false };
	for (const otp of Object.keys(OTPS)) for (const dry of [false, true]) for (const ci of [false, true]) for (const fail of [[], ...STEPS.map((s) => [s])]) yield { fail, dry, otp, code: "2", dirty: "clean", ci };
	for (const dirty of Object.keys(TREES)) for (const dry of [false, true]) for (const otp of ["option", "skip", "typed"]) for (const fail of [[], ["auth"], ["test"]]) yield { fail, dry, otp, code: "1", dirty, ci: false };
	for (const code of ["127", "255", "kill"]) for (const s of STEPS) for (const dry of [false, true]) for (const otp of ["env", "blank"]) yield { fail: [s], dry, otp, code, dirty: "clean", ci: true };
	if (tier === "thorough") for (const p of product({ dry: [false, true], otp: Object.keys(OTPS), code: ["1", "130", "kill"], ci: [false, true] })) for (const fail of all.filter((f) => f.length === 2)) yield { ...p, fail, dirty: "clean" };
}

export default {
	id: "C23",
	bundle: false,
	bounds: (tier) => `all ${1 << STEPS.length} combinations of failing steps x dry run or not x ${tier === "thorough" ? 5 : 2} sources of the one-time password; single failures x all ${Object.keys(OTPS).length} sources x CI or not; ${Object.keys(TREES).length} real git working trees (clean, with ignored files, modified, untracked, staged, deleted, renamed, ...); failures by exit status and by signal${tier === "thorough" ? "; pairs of failures x all sources x 3 statuses" : ""}; each one a run of the real script with stand-ins for npm and pnpm`,
	assumptions: ["`changeset publish` publishes whatever other flags it is given, as version 2.29.8 does; `npm publish` and `pnpm publish` honour --dry-run", "a password given in the environment is visible to every step, as any variable is"],
	*cases(tier) {
		yield* cases(tier);
	},
	init(ctx) {
		this.dir = fs.mkdtempSync(path.join(ctx.scratch, "c23-"));
		fs.mkdirSync(path.join(this.dir, "bin"));
		this.git = (process.env.PATH ?? "").split(":").map((d) => path.join(d, "git")).find((f) => fs.existsSync(f));
		this.gitEnv = { PATH: process.env.PATH, HOME: this.dir, GIT_CONFIG_NOSYSTEM: "1", GIT_CONFIG_GLOBAL: "/dev/null", GIT_OPTIONAL_LOCKS: "0" };
		for (const [name, soil] of Object.entries(TREES)) {
			const d = path.join(this.dir, `tree-${name}`);
			const git = (...args) => execFileSync(this.git, ["-c", "user.name=x", "-c", "user.email=x@x", ...args], { cwd: d, env: this.gitEnv, stdio: "ignore" });
			fs.mkdirSync(path.join(d, "src"), { recursive: true });
			for (const [f, text] of [["src/a.ts", "1"], ["src/b.ts", "1"], ["readme.md", "1"], ["package.json", "{ }"], [".gitignore", "dist\n"]]) fs.writeFileSync(path.join(d, f), text);
			git("init", "-q");
			git("add", ".");
			git("commit", "-q", "-m", "x");
			soil(d, git);
		}
		for (const name of ["git", "npm", "pnpm", "npx", "yarn", "changeset"]) {
			fs.writeFileSync(path.join(this.dir, "bin", name), FAKE, { mode: 0o755 });
		}
		this.n = 0;
	},
	async exec(ctx, t) {
		const otp = OTPS[t.otp];
		const tree = path.join(this.dir, `tree-${t.dirty}`);
		const log = path.join(this.dir, `log${this.n++}`);
		const env = { ...this.gitEnv, PATH: path.join(this.dir, "bin"), REAL_GIT: this.git, FAKE_TREE: fs.realpathSync(tree), FAKE_LOG: log, FAKE_FAIL: t.fail.join(","), FAKE_CODE: t.code };
		if (otp.env) env.NPM_CONFIG_OTP = otp.env;
		if (t.ci) env.CI = "1";
		const args = [...(t.dry ? ["--dry-run"] : []), ...(otp.args ?? [])];
		const r = await run(process.execPath, [path.join(REPO, "scripts/release-beta.mjs"), ...args], { env, cwd: tree, input: otp.stdin ?? "" });
		let lines = [];
		try {
			lines = fs.readFileSync(log, "utf8").split("\n").filter(Boolean);
			fs.rmSync(log);
		} catch {}
		const calls = lines.map((l) => {
			const [key, name, cmd, seen] = l.split("|");
			return { key, cmd: `${name} ${cmd}`, seen, dry: key === "publish" && !/changeset/.test(`${name} ${cmd}`) && / --dry-run\b/.test(cmd) };
		});
		ctx.step(calls.length);
		const keys = calls.map((c) => c.key);
		ctx.outcome(JSON.stringify([keys, r.code === 0]));
		ctx.state(JSON.stringify([t.fail, t.dry, t.otp, t.dirty]));
		const ran = calls.map((c) => c.cmd).join("; ");
		const fail = (m) => ctx.fail(`${m} (ran: ${ran}; status ${r.code})`);
		if (r.timedOut) return fail("the script did not end");

		const failing = (k) => t.fail.includes(k) || (k === "clean" && isDirty(t.dirty));
		const published = calls.filter((c) => c.key === "publish");
		const forReal = published.filter((c) => !c.dry);
		let firstFailure = calls.findIndex((c) => failing(c.key));
		// looking at the tree may take several commands
		while (firstFailure >= 0 && keys[firstFailure] === "clean" && keys[firstFailure + 1] === "clean" && !t.fail.includes("clean")) firstFailure++;
		if (firstFailure >= 0) {
			if (r.code === 0) return fail(`${keys[firstFailure]} failed, but the script reports success`);
			if (firstFailure !== calls.length - 1) return fail(`${keys[firstFailure]} failed, but the script went on`);
		}
		if (published.length > 1) return fail("published more than once");
		if (t.dry && forReal.length) return fail("a dry run published for real");
		if (published.length) {
			let at = -1;
			for (const gate of GATES) {
				const next = keys.indexOf(gate, at + 1);
				if (next < 0 || next > keys.indexOf("publish")) return fail(`published although ${gate} had not been passed in its turn`);
				at = next;
			}
		}
		const expectSuccess = !STEPS.some(failing) && !otp.mayAbort;
		if (expectSuccess) {
			if (r.code !== 0) return fail(`failed although every step succeeded: ${r.err.slice(-300)}`);
			if (!t.dry && forReal.length !== 1) return fail("reported success without publishing");
		}
		if (r.code === 0 && !t.dry && forReal.length !== 1) return fail("reported success without publishing");
		if (r.code === 0 && STEPS.some(failing) && !(t.dry && !published.length && !GATES.some(failing))) return fail("reported success although a step fails");
		// the one-time password
		const out = r.out + r.err;
		for (const secret of [OPT, ENV, TYPED]) if (out.includes(secret)) return fail("the one-time password was printed");
		for (const c of calls) {
			if (c.key === "publish") continue;
			for (const secret of [OPT, TYPED]) if (c.seen.includes(secret) || c.cmd.includes(secret)) return fail(`the one-time password was passed to: ${c.key}`);
			if (c.cmd.includes(ENV)) return fail(`the one-time password was passed to: ${c.key}`);
		}
		if (published.length && !otp.open && !t.dry) {
			const c = published[0];
			const has = [OPT, ENV, TYPED].filter((s) => c.seen.includes(s) || c.cmd.includes(s));
			if (otp.want ? has.length !== 1 || has[0] !== otp.want : has.length) return fail(`publishing used ${has.length ? has : "no password"} instead of ${otp.want ?? "no password"}`);
		}
	},
};

function run(file, args, { env, cwd, input }) {
	return new Promise((resolve) => {
		const child = spawn(file, args, { env, cwd, stdio: ["pipe", "pipe", "pipe"] });
		let out = "";
		let err = "";
		let timedOut = false;
		const timer = setTimeout(() => {
			timedOut = true;
			child.kill("SIGKILL");
		}, 60_000);
		child.stdout.on("data", (d) => {
			out += d;
		});
		child.stderr.on("data", (d) => {
			err += d;
		});
		child.stdin.on("error", () => {});
		child.stdin.end(input);
		child.on("close", (code, signal) => {
			clearTimeout(timer);
			resolve({ code: code ?? signal, out, err, timedOut });
		});
	});
}
