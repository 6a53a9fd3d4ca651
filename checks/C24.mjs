// The token refresh under every combination of environment, command and network outcomes.
import fs from "node:fs";
import path from "node:path";
import vm from "node:vm";
import { REPO } from "../lib/build.mjs";
import { product } from "../lib/enum.mjs";

const GH = { unset: undefined, empty: "", plain: "ghs_5ecretHub", padded: " ghs_5ecretHub ", broken: "ghs_5ecret\nHub", wide: "ghs_5ecret…Hub", regex: "ghs_$&.*(5ecret" };
const REPOS = { unset: undefined, empty: "", repo: "own-er/re.po" };
const COMMANDS = ["token", "newline", "regextoken", "empty", "blank", "fails", "failsLoud", "missing", "throwsText"];
const NET = ["200", "201", "204", "301", "400", "401", "403", "404", "422", "500", "503", "reject", "rejectText", "rejectQuoting", "abort"];
const TOKENS = { token: "npm_N3wT0ken", newline: "npm_N3wT0ken", regextoken: "npm_$1\\^N3w(" };
const PART = 6;
const STATUS = { 200: "OK", 201: "Created", 204: "No Content", 301: "Moved", 400: "Bad Request", 401: "Unauthorized", 403: "Forbidden", 404: "Not Found", 422: "Unprocessable Entity", 500: "Internal Server Error", 503: "" };

const CODES = Array.from({ length: 400 }, (_, i) => String(200 + i));

function* cases(tier) {
	for (const c of product({ gh: ["plain"], repo: ["repo"], cmd: ["token"], net: CODES })) yield [c];
	const all = [...product({ gh: Object.keys(GH), repo: Object.keys(REPOS), cmd: COMMANDS, net: NET })];
	for (const c of all) yield [c];
	const some = [...product({ gh: ["unset", "plain", "broken"], repo: ["unset", "repo"], cmd: ["token", "empty", "fails"], net: ["204", "401", "reject"] })];
	for (const a of some) for (const b of some) yield [a, b];
	const few = some.filter((c) => c.repo === "repo" && c.gh !== "broken");
	for (const a of few) for (const b of few) for (const c of tier === "thorough" ? some : few) yield [a, b, c];
	if (tier === "thorough") for (const a of all) for (const b of few) yield [a, b];
}

export default {
	id: "C24",
	bundle: false,
	execArgv: ["--experimental-vm-modules", "--no-warnings"],
	bounds: (tier) => `${Object.keys(GH).length} GitHub tokens x ${Object.keys(REPOS).length} repository names x ${COMMANDS.length} outcomes of creating the token x ${NET.length} outcomes of the request; every status code from 200 to 599; all sequences of 2 and ${tier === "thorough" ? "3" : "3 (reduced)"} refreshes over reduced sets`,
	assumptions: ["requests are built by the runtime's own Request class, which rejects what the real fetch would reject", "the command is a stand-in; nothing leaves the process"],
	*cases(tier) {
		yield* cases(tier);
	},
	async init() {
		const code = fs.readFileSync(path.join(REPO, "scripts/refresh-npm-token.js"), "utf8");
		const file = path.join(REPO, "scripts/refresh-npm-token.js");
		const self = this;
		const commands = {
			execSync: (command) => self.command(String(command), "throw"),
			execFileSync: (f, args) => self.command([f, ...(args ?? [])].join(" "), "throw"),
			spawnSync: (f, args) => self.command([f, ...(Array.isArray(args) ? args : [])].join(" "), "spawn"),
		};
		this.load = async () => {
			const link = async (specifier) => {
				const name = specifier.replace(/^node:/, "");
				const exports = name === "child_process" ? { ...commands, default: commands } : await import(`node:${name}`);
				const m = new vm.SyntheticModule(Object.keys(exports), function () {
					for (const k of Object.keys(exports)) this.setExport(k, exports[k]);
				});
				await m.link(() => {});
				await m.evaluate();
				return m;
			};
			const m = new vm.SourceTextModule(code, {
				identifier: `file://${file}`,
				importModuleDynamically: link,
				initializeImportMeta: (meta) => {
					meta.url = `file://${file}`;
				},
			});
			await m.link(link);
			await m.evaluate();
			return m.namespace.default;
		};
		this.refresh = await this.load();
	},
	command(line, style) {
		this.commands.push(line);
		const { cmd } = this.now;
		let result = "";
		let error = null;
		if (cmd === "token") result = TOKENS.token;
		else if (cmd === "newline") result = `\n${TOKENS.newline}\n`;
		else if (cmd === "regextoken") result = `${TOKENS.regextoken}\n`;
		else if (cmd === "blank") result = " \n ";
		else if (cmd === "fails") error = Object.assign(new Error(`Command failed: ${line}`), { status: 1, stdout: "", stderr: "" });
		else if (cmd === "failsLoud") error = Object.assign(new Error(`Command failed: ${line}\nnpm ERR! 401 Unauthorized`), { status: 1, stdout: "", stderr: "npm ERR! 401" });
		else if (cmd === "missing") error = Object.assign(new Error("spawnSync npm ENOENT"), { code: "ENOENT" });
		else if (cmd === "throwsText") error = "npm is not available";
		this.failure = error;
		if (style === "spawn") return error ? { status: 1, error, stdout: "", stderr: "" } : { status: 0, stdout: result, stderr: "" };
		if (error) throw error;
		return result;
	},
	async fetch(input, init) {
		const request = new Request(input, init);
		const text = await request.text();
		this.requests.push({ url: request.url, method: request.method, auth: request.headers.get("authorization"), text });
		const { net } = this.now;
		const token = TOKENS[this.now.cmd];
		if (net === "reject") throw (this.failure = new TypeError("fetch failed"));
		if (net === "rejectText") throw (this.failure = "network down");
		if (net === "rejectQuoting") throw (this.failure = new Error(`could not send ${token} with ${request.headers.get("authorization")} / ${GH[this.now.gh]}, ${token}`));
		if (net === "abort") throw (this.failure = new DOMException("aborted", "AbortError"));
		const status = Number(net);
		return { ok: status >= 200 && status < 300, status, statusText: STATUS[net] ?? "", text: async () => "", json: async () => ({ message: STATUS[net] ?? "" }), headers: new Headers() };
	},
	async exec(ctx, t) {
		const keep = { fetch: globalThis.fetch, console: { ...console }, out: process.stdout.write, err: process.stderr.write };
		const said = [];
		const env = { GITHUB_TOKEN: process.env.GITHUB_TOKEN, REPO_NAME: process.env.REPO_NAME };
		const put = (k, v) => {
			if (v === undefined) delete process.env[k];
			else process.env[k] = v;
		};
		const text = (v) => (typeof v === "string" ? v : v instanceof Error ? `${v.stack} ${v.message} ${v.cause ?? ""}` : JSON.stringify(v)) ?? "";
		try {
			globalThis.fetch = (...a) => this.fetch(...a);
			for (const level of ["log", "info", "warn", "error", "debug", "trace", "dir", "table"]) console[level] = (...a) => said.push(a.map(text).join(" "));
			process.stdout.write = process.stderr.write = (d) => (said.push(String(d)), true);
			if (t.length > 1) this.refresh = await this.load();
			for (let i = 0; i < t.length; i++) {
				const c = (this.now = t[i]);
				this.requests = [];
				this.commands = [];
				this.failure = null;
				said.length = 0;
				put("GITHUB_TOKEN", GH[c.gh]);
				put("REPO_NAME", REPOS[c.repo]);
				let settled;
				try {
					settled = { value: await this.refresh() };
				} catch (error) {
					settled = { error };
				}
				ctx.step();
				const fail = (m) => ctx.fail(`${m} (${JSON.stringify(c)})`, { trace: t.slice(0, i + 1) });
				const token = TOKENS[c.cmd];
				const complete = Boolean(GH[c.gh] && REPOS[c.repo]);
				const sendable = c.gh !== "broken" && c.gh !== "wide";
				const accepted = /^2/.test(c.net);
				const expected = token && complete && sendable && accepted;
				ctx.outcome(JSON.stringify([Boolean(expected), this.requests.length, this.commands.length, c.net]));
				ctx.state(JSON.stringify(c));
				const ok = !("error" in settled);
				if (ok && !expected) return fail("reported success although the token was not stored");
				if (!ok && expected) return fail(`failed with ${settled.error?.message ?? settled.error}`);
				if (this.requests.length && !(token && complete)) return fail("something was sent to GitHub without a new token or a complete environment");
				if (this.requests.length > 1) return fail("GitHub was called more than once");
				if (this.commands.length > 1) return fail("more than one token was created");
				if (this.requests.length) {
					const r = this.requests[0];
					let body = null;
					try {
						body = JSON.parse(r.text);
					} catch {}
					if (r.method !== "PUT" || r.url !== `https://api.github.com/repos/${REPOS[c.repo]}/actions/secrets/NPM_TOKEN`) return fail(`the request was ${r.method} ${r.url}`);
					if (!new RegExp(/^(Bearer|token) /).test(r.auth ?? "") || r.auth.replace(/^\S+ /, "").trim() !== GH[c.gh].trim()) return fail("the request was not authenticated with the GitHub token");
					if (!body || body.encrypted_value !== token) return fail(`the request stores ${JSON.stringify(body)}`);
				} else if (ok) return fail("reported success without asking GitHub");
				if (!ok) {
					if (this.failure !== null && settled.error !== this.failure) return fail(`the original error was replaced by ${settled.error?.message ?? settled.error}`);
					if (settled.error === undefined || settled.error === null || settled.error === "") return fail("rejected without an error");
				}
				const output = said.join("\n");
				const secrets = [token, complete || GH[c.gh] ? GH[c.gh] : null].filter(Boolean);
				for (const s of secrets) for (const form of [s, s.trim()]) if (output.includes(form)) return fail("a token was printed");
				for (const s of secrets) for (let k = 0; k + PART <= s.trim().length; k++) if (output.includes(s.trim().slice(k, k + PART))) return fail(`${PART} characters of a token were printed`);
				if (!ok && /(updated|refreshed|stored)[^\n]*success/i.test(output)) return fail("printed success although it failed");
			}
		} finally {
			globalThis.fetch = keep.fetch;
			Object.assign(console, keep.console);
			process.stdout.write = keep.out;
			process.stderr.write = keep.err;
			put("GITHUB_TOKEN", env.GITHUB_TOKEN);
			put("REPO_NAME", env.REPO_NAME);
		}
	},
};
