// Bundles the monitors with the code under test from /repo: node build.mjs OUT
import { createRequire } from "node:module";
import * as path from "node:path";
import { fileURLToPath } from "node:url";
const require = createRequire("/opt/veriftools/node/node_modules/");
const esbuild = require("esbuild");
const here = path.dirname(fileURLToPath(import.meta.url));
const repo = process.env.REPO ?? "/repo";
const names = ["BoxedParseModule", "ParseModulesBindings", "ParseModulesCreator", "ParseModuleCollectionBindings", "MathParserBindings", "MathEditorBindings"];
const shared = `export default globalThis.__pkg.default; ${names.map((n) => `export const ${n} = globalThis.__pkg.${n};`).join(" ")}`;
/** The monitors, and the whole application as a page would load it */
const build = (entry, outfile, page) => esbuild.build({
  entryPoints: [entry],
  bundle: true,
  platform: "node",
  format: "esm",
  target: "node22",
  outfile,
  define: { "import.meta.env.DEV": "false", "import.meta.env.PROD": "true" },
  logLevel: "error",
  tsconfigRaw: { compilerOptions: { target: "ESNext", useDefineForClassFields: true } },
  plugins: [
    {
      name: "harness",
      setup(build) {
        build.onResolve({ filter: /aftermath-core\/pkg$/ }, () => (page ? { path: "pkg", namespace: "shared" } : { path: path.join(here, "pkg.ts") }));
        build.onLoad({ filter: /.*/, namespace: "shared" }, () => ({ contents: shared, loader: "js" }));
        build.onResolve({ filter: /^repo:/ }, (args) => build.resolve("./" + args.path.slice(5), { resolveDir: path.join(repo, "src"), kind: args.kind }));
        build.onResolve({ filter: /\.css(\?.*)?$/ }, (args) => ({ path: args.path, namespace: "css" }));
        build.onLoad({ filter: /.*/, namespace: "css" }, () => ({ contents: 'export default ""', loader: "js" }));
        build.onLoad({ filter: /.*/, namespace: "gui" }, () => ({ contents: "export class GUI { add() { return this; } addFolder() { return this; } onChange() { return this; } }", loader: "js" }));
        build.onResolve({ filter: /^lil-gui$/ }, () => ({ path: "lil-gui", namespace: "gui" }));
      },
    },
  ],
});
await build(path.join(here, "main.ts"), process.argv[2], false);
await build(path.join(repo, "src/main.ts"), path.join(path.dirname(process.argv[2]), "page.mjs"), true);
