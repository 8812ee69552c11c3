// Builds the import closure of a harness from /repo's current source:
//   <out>/sym/...   instrumented      <out>/plain/...  types stripped only
import fs from "node:fs";
import path from "node:path";
import { createRequire } from "node:module";
import { fileURLToPath, pathToFileURL } from "node:url";
import { countFunctions, instrument, rewriteImports, rewriteDynamic, stubFunctions, transpile, transpilePlain } from "./instrument.mjs";

const HERE = path.dirname(fileURLToPath(import.meta.url));
export const REPO = process.env.SX_REPO ?? "/repo";
const RT = pathToFileURL(path.join(HERE, "rt.mjs")).href;

let pkgs = null;
function packages() {
  if (pkgs) return pkgs;
  pkgs = new Map();
  for (const d of fs.readdirSync(path.join(REPO, "packages"))) {
    const pj = path.join(REPO, "packages", d, "package.json");
    if (!fs.existsSync(pj)) continue;
    const j = JSON.parse(fs.readFileSync(pj, "utf8"));
    pkgs.set(j.name, { dir: path.join(REPO, "packages", d), json: j });
  }
  return pkgs;
}
function workspaceFile(spec) {
  const m = /^(@optique\/[^/]+)(?:\/(.*))?$/.exec(spec);
  if (!m) return null;
  const p = packages().get(m[1]);
  if (!p) return null;
  const sub = m[2] ? "./" + m[2] : ".";
  let ex = p.json.exports?.[sub];
  if (ex && typeof ex === "object") ex = ex.import ?? ex.default;
  if (ex && typeof ex === "object") ex = ex.default;
  let rel = ex ? ex.replace(/^\.\/dist\//, "src/").replace(/\.js$/, ".ts") : `src/${m[2] ?? "index"}.ts`;
  return path.join(p.dir, rel);
}

export function build(entryFiles, outDir, { stubs = {}, modules = {}, symModules = {} } = {}) {
  const stubsApplied = [];
  const done = new Map(); // abs source -> rel output
  const functions = [];
  const queue = [...entryFiles];
  const outName = (abs) => {
    const rel = abs.startsWith(REPO + path.sep) ? "repo/" + path.relative(REPO, abs) : "verif/" + path.relative(path.dirname(HERE), abs);
    return rel.replace(/\.(ts|mts|mjs|js)$/, ".mjs").replace(/\.json$/, ".json.mjs");
  };
  const lines = {};
  while (queue.length) {
    const abs = queue.pop();
    if (done.has(abs)) continue;
    const rel = outName(abs);
    done.set(abs, rel);
    const src = fs.readFileSync(abs, "utf8");
    if (abs.endsWith(".json")) {
      for (const kind of ["sym", "plain"]) {
        const file = path.join(outDir, kind, rel);
        fs.mkdirSync(path.dirname(file), { recursive: true });
        fs.writeFileSync(file, `export default ${src};\n`);
      }
      continue;
    }
    if (abs.startsWith(REPO)) lines[path.relative(REPO, abs)] = src.split("\n").length;
    const mkResolve = (kind) => (spec) => {
      let target = null;
      // stand-ins for outside modules (file system, Git …), named in config.json
      const standIn = modules[spec] ?? (kind === "sym" ? symModules[spec] : undefined);
      if (standIn && (abs.startsWith(REPO + path.sep) || !spec.startsWith("node:"))) target = path.join(path.dirname(HERE), standIn);
      else if (spec.startsWith(".")) target = path.resolve(path.dirname(abs), spec);
      else if (spec.startsWith("@repo/")) target = path.join(REPO, spec.slice(6));
      else if (spec.startsWith("#")) {
        // package-internal "imports"
        let d = path.dirname(abs);
        while (!fs.existsSync(path.join(d, "package.json"))) d = path.dirname(d);
        const im = JSON.parse(fs.readFileSync(path.join(d, "package.json"), "utf8")).imports?.[spec];
        const t = typeof im === "string" ? im : im?.import ?? im?.default;
        if (t) target = path.join(d, t.replace(/^\.\/dist\//, "src/").replace(/\.js$/, ".ts"));
      } else target = workspaceFile(spec);
      if (target) {
        if (!fs.existsSync(target) && fs.existsSync(target.replace(/\.js$/, ".ts"))) target = target.replace(/\.js$/, ".ts");
        queue.push(target);
        return { path: pathToFileURL(path.join(outDir, kind, outName(target))).href, json: false };
      }
      if (spec.startsWith("node:")) return { path: spec, foreign: true };
      // third-party dependency of the package that imports it
      const req = createRequire(abs.startsWith(REPO) ? abs : path.join(REPO, "packages/core/package.json"));
      let p;
      try {
        // a harness takes a library from the package named after it
        p = import.meta.resolve ? resolveEsm(spec, abs.startsWith(REPO + path.sep) ? abs : path.join(REPO, "packages", spec, "package.json")) : req.resolve(spec);
      } catch {
        p = req.resolve(spec);
      }
      return { path: p.startsWith("file:") ? p : pathToFileURL(p).href, foreign: true };
    };
    for (const kind of ["sym", "plain"]) {
      const file = path.join(outDir, kind, rel);
      fs.mkdirSync(path.dirname(file), { recursive: true });
      let text;
      if (kind === "sym") {
        let js = transpile(src, abs);
        const st = stubs[path.relative(REPO, abs)];
        if (st) {
          const r = stubFunctions(js, abs, st);
          js = r.text;
          for (const n of r.applied) stubsApplied.push(`${path.relative(REPO, abs)}:${n}`);
        }
        const fns = countFunctions(js, abs);
        if (abs.startsWith(REPO)) functions.push({ file: path.relative(REPO, abs), functions: fns });
        text = instrument(rewriteDynamic(js, abs, mkResolve(kind)), abs, { resolveImport: mkResolve(kind), rtPath: RT });
      } else {
        text = rewriteImports(rewriteDynamic(transpilePlain(src, abs), abs, mkResolve(kind)), abs, { resolveImport: mkResolve(kind) });
      }
      fs.writeFileSync(file, text);
    }
  }
  return { files: Object.fromEntries([...done].map(([a, r]) => [a, r])), lines, outName, functions, stubsApplied };
}

function resolveEsm(spec, parent) {
  const m = /^(@[^/]+\/[^/]+|[^/]+)(?:\/(.*))?$/.exec(spec);
  let d = path.dirname(parent);
  for (;;) {
    const c = path.join(d, "node_modules", m[1]);
    if (fs.existsSync(c)) {
      const real = fs.realpathSync(c);
      const j = JSON.parse(fs.readFileSync(path.join(real, "package.json"), "utf8"));
      const sub = m[2] ? "./" + m[2] : ".";
      const pick = (e) => typeof e === "string" ? e : e ? pick(e.import ?? e.node ?? e.module ?? e.default) : undefined;
      let ex = j.exports;
      if (ex && typeof ex === "object" && Object.keys(ex).some((k) => k.startsWith("."))) ex = ex[sub];
      const rel = pick(ex) ?? (m[2] ? m[2] : j.module ?? j.main ?? "index.js");
      return pathToFileURL(path.join(real, rel)).href;
    }
    const up = path.dirname(d);
    if (up === d) throw new Error("cannot resolve " + spec);
    d = up;
  }
}
