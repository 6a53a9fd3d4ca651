// Bundles the code under test from /repo's working tree (never from dist/).
import { createRequire } from "node:module";
import path from "node:path";
import { fileURLToPath } from "node:url";

export const REPO = process.env.VERIF_REPO ?? "/repo";
const HERE = path.dirname(fileURLToPath(import.meta.url));

function loadEsbuild() {
	const places = [
		"/opt/veriftools/node/node_modules/",
		`${REPO}/node_modules/vite/`,
		`${REPO}/`,
	];
	for (const place of places) {
		try {
			return createRequire(`${place}x.js`)("esbuild");
		} catch {}
	}
	throw new Error("esbuild is not available");
}

/** Libraries the user brings along; shared between all realms. */
export const EXTERNAL = ["xstate", "mobx", "@reduxjs/toolkit", "redux"];

export async function bundle(outfile, { entry = "entry.cjs", external = EXTERNAL, conditions = ["browser", "import"] } = {}) {
	const esbuild = loadEsbuild();
	await esbuild.build({
		entryPoints: [path.join(HERE, entry)],
		outfile,
		bundle: true,
		format: "cjs",
		platform: "neutral",
		target: "es2022",
		mainFields: ["module", "main"],
		conditions,
		external: [...external, "node:*"],
		logLevel: "silent",
		sourcemap: false,
		define: {},
		plugins: [
			{
				name: "repo",
				setup(build) {
					build.onResolve({ filter: /^@repo\// }, (args) => ({
						path: path.join(REPO, args.path.slice("@repo/".length)),
					}));
					build.onResolve({ filter: /^lit-html/ }, (args) => {
						if (args.pluginData === "self") return undefined;
						return build.resolve(args.path, {
							kind: "import-statement",
							resolveDir: REPO,
							pluginData: "self",
						});
					});
				},
			},
		],
	});
	return outfile;
}
