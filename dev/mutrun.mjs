// dev/mutrun.mjs MUTANTS.jsonl OUT.jsonl [WORKERS]: keeps the mutants the existing tests do not notice
import { createRequire } from "node:module";
import { execFile, execFileSync } from "node:child_process";
import { appendFileSync, cpSync, existsSync, readFileSync, readdirSync, writeFileSync } from "node:fs";
const esbuild = createRequire("/opt/veriftools/node/node_modules/")("esbuild");
const [list, outFile, workers = "4"] = process.argv.slice(2);
const muts = readFileSync(list, "utf8").trim().split("\n").map((l) => JSON.parse(l));
const env = { ...process.env, HOME: "/root", LANG: "C.UTF-8", LC_ALL: "C.UTF-8", TZ: "UTC", CI: "1", NO_COLOR: "1", NODE_OPTIONS: "" };
const pkgs = readdirSync("/repo/packages").filter((p) => existsSync(`/repo/packages/${p}/package.json`));
function tests(dir, pkg, files) {
  return new Promise((res) => {
    const args = ["--import=/opt/vp/fc-seed.mjs", "--test", "--test-reporter=tap", ...(files ?? (pkg === "man" ? ["src/**/*.test.ts"] : []))];
    execFile("node", args, { cwd: `${dir}/packages/${pkg}`, env, timeout: 200000, maxBuffer: 1 << 28, killSignal: "SIGKILL" }, (e, so) => {
      const m = /^# fail (\d+)/m.exec(so), c = /^# cancelled (\d+)/m.exec(so), t = /^# pass (\d+)/m.exec(so);
      res(m ? { fail: Number(m[1]) + Number(c?.[1] ?? 0), pass: Number(t[1]) } : { fail: 1e9, pass: 0 });
    });
  });
}
const fix = (js) => js.replace(/(from\s*|import\s*\()(["'])(\.[^"']*)\.ts\2/g, "$1$2$3.js$2");
function put(dir, file, text) {
  const js = fix(esbuild.transformSync(text, { loader: "ts", format: "esm", target: "es2022" }).code);
  writeFileSync(`${dir}/${file.replace("/src/", "/dist/").replace(/\.ts$/, ".js")}`, js);
}
const dirs = [];
for (let i = 0; i < Number(workers); i++) {
  const d = `/tmp/mut/w${i}`;
  if (!existsSync(d)) execFileSync("cp", ["-a", "/repo", d]);
  dirs.push(d);
}
const base = {};
for (const p of pkgs) base[p] = await tests(dirs[0], p);
console.log(JSON.stringify(base));
let next = 0, kept = 0, done = 0;
await Promise.all(dirs.map(async (d) => {
  while (next < muts.length) {
    const m = muts[next++];
    const src = readFileSync(`${d}/${m.file}`, "utf8");
    const mutated = src.slice(0, m.pos) + m.new + src.slice(m.end);
    const pkg = m.file.split("/")[1];
    let why;
    try {
      put(d, m.file, mutated);
      const own = m.file.replace(/^packages\/[^/]+\//, "").replace(/\.ts$/, ".test.ts");
      if (existsSync(`${d}/packages/${pkg}/${own}`)) { const r = await tests(d, pkg, [own]); if (r.fail) why = "own"; }
      const order = pkg === "core" ? ["core", "run", "env", "config", ...pkgs.filter((p) => !["core", "run", "env", "config"].includes(p))] : [pkg, ...pkgs.filter((p) => p !== pkg && p !== "core")];
      if (!why) for (const p of order) { const r = await tests(d, p); if (r.fail > base[p].fail || r.pass < base[p].pass) { why = p; break; } }
    } catch (e) { why = "error " + String(e).slice(0, 80); }
    put(d, m.file, src);
    done++;
    if (!why) { kept++; appendFileSync(outFile, JSON.stringify(m) + "\n"); }
    if (done % 10 === 0 || !why) console.log(done + "/" + muts.length, "kept", kept, why ?? `KEPT ${m.file}:${m.line} ${m.op}`);
  }
}));
console.log("finished", kept);
