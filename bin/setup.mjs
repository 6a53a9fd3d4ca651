// Confirms that what the checks need is present; nothing has to be built ahead of time,
// because every check bundles /repo's working tree itself.
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { bundle } from "../lib/build.mjs";
const dir = fs.mkdtempSync(path.join(os.tmpdir(), "verif-setup-"));
try { await bundle(path.join(dir, "b.cjs")); console.log("setup ok"); } finally { fs.rmSync(dir, { recursive: true, force: true }); }
