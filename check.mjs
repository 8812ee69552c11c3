#!/usr/bin/env node
// node check.mjs <PROPERTY> [--tier quick|thorough] [--only harness] [--case n] [--replay file] [-v]
import { fork } from "node:child_process";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { build, REPO } from "./engine/build.mjs";

const HERE = path.dirname(fileURLToPath(import.meta.url));
const argv = process.argv.slice(2);
const opt = (n, d) => {
  const i = argv.indexOf("--" + n);
  return i >= 0 ? argv[i + 1] : d;
};
const pid = argv[0];
const tier = opt("tier", process.env.VERIF_TIER === "thorough" ? "thorough" : "quick");
const seed = Number(process.env.VERIF_SEED ?? 1);
const only = opt("only"), onlyCase = opt("case");
const verbose = argv.includes("-v");
const hdir = path.join(HERE, "harness", pid);
const t0 = Date.now();

const conf = { budgetQuick: 150, budgetThorough: 780, stubs: {}, ...readJson(path.join(hdir, "config.json"), {}) };
function readJson(f, d) {
  return fs.existsSync(f) ? JSON.parse(fs.readFileSync(f, "utf8")) : d;
}
const DEFAULT_STUBS = {
  "packages/core/src/suggestion.ts": { findSimilar: "return [];" },
};
const out = fs.mkdtempSync(path.join(os.tmpdir(), "optique-sx-"));
const cleanup = () => fs.rmSync(out, { recursive: true, force: true });
process.on("exit", cleanup);
for (const s of ["SIGINT", "SIGTERM"]) process.on(s, () => process.exit(3));

let files = fs.readdirSync(hdir).filter((f) => f.endsWith(".ts") && !f.startsWith("_")).sort();
const replay = opt("replay");
const rp = replay ? JSON.parse(fs.readFileSync(replay, "utf8")) : null;
if (rp) files = [rp.harness + ".ts"];
else if (only) files = files.filter((f) => f === only + ".ts");
const entries = files.map((f) => path.join(hdir, f));
const b = build(entries, out, { stubs: conf.stubsReplace ?? { ...DEFAULT_STUBS, ...conf.stubs }, modules: conf.modules, symModules: conf.symModules });
const buildMs = Date.now() - t0;

if (rp) {
  const { concreteRun } = await import("./engine/worker.mjs");
  const mod = (await import(path.join(out, "plain", b.outName(entries[0])))).default;
  const c = await concreteRun(mod, rp.inputs, rp.case);
  console.log(JSON.stringify({ harness: rp.harness, inputs: rp.inputs, failed: c.failed, threw: c.threw && String(c.threw.stack ?? c.threw) }, null, 1));
  process.exit(c.failed || (c.threw && !c.assumption) ? 1 : 0);
}

// ------------------------------------------------------------------ the jobs
const budget = (tier === "quick" ? conf.budgetQuick : conf.budgetThorough) * 1000;
const jobs = [];
const harness = {};
for (let i = 0; i < entries.length; i++) {
  const rel = b.outName(entries[i]);
  const mod = (await import(path.join(out, "plain", rel))).default;
  const name = files[i].replace(/\.ts$/, "");
  const cases = typeof mod.cases === "function" ? mod.cases(tier) : mod.cases ?? [null];
  harness[name] = { name, bounds: mod.bounds ?? "", assumptions: mod.assumptions ?? [], covers: mod.covers ?? [], cases: cases.length, got: {}, complete: true };
  cases.forEach((c, k) => {
    if (onlyCase !== undefined && Number(onlyCase) !== k) return;
    jobs.push({ id: jobs.length, harness: name, caseNo: k, rel, out, caseArg: c, maxPaths: mod.maxPaths ?? 1e9, weight: mod.weight?.(c) ?? 1, maxMs: (tier === "quick" ? mod.caseMs : mod.caseMsThorough) ?? 1e9, caseMs: mod.caseMs });
  });
}
jobs.sort((x, y) => y.weight - x.weight);
const known = fs.existsSync(path.join(HERE, "known-findings.txt"))
  ? fs.readFileSync(path.join(HERE, "known-findings.txt"), "utf8").split("\n").filter((l) => l.startsWith("finding: property=" + pid + " ")).map((l) => {
    const m = /^finding: property=(\S+) id=(\S+) match=(\{.*?\})\s+::\s+(.*)$/.exec(l);
    return m ? { id: m[2], match: JSON.parse(m[3]), text: m[4] } : null;
  }).filter(Boolean)
  : [];
const isKnown = (v, h) => known.find((k) => {
  if (k.match.harness && k.match.harness !== h) return false;
  if (k.match.message && !v.message.includes(k.match.message)) return false;
  if (k.match.inputs && !Object.entries(k.match.inputs).every(([n, x]) => JSON.stringify(v.inputs[n]) === JSON.stringify(x))) return false;
  if (k.match.case !== undefined && JSON.stringify(k.match.case) !== JSON.stringify(v.case)) return false;
  return true;
});

const results = [];
const NW = Math.min(Number(process.env.SX_JOBS ?? 8), jobs.length);
const hardDeadline = t0 + budget;
await new Promise((resolve) => {
  let active = 0;
  const queue = [...jobs];
  const spawnWorker = () => {
    const dir = fs.mkdtempSync(path.join(out, "w-"));
    const w = fork(path.join(HERE, "engine", "worker.mjs"), [], { execArgv: ["--stack-size=4000", "--max-old-space-size=3500"] });
    active++;
    let cur = null, kill = null, count = 0;
    const next = () => {
      clearTimeout(kill);
      cur = queue.shift() ?? null;
      if (!cur || count++ > 60) {
        if (cur) { queue.unshift(cur); cur = null; w.retire = true; }
        w.disconnect();
        return;
      }
      const deadline = Math.min(hardDeadline, Date.now() + cur.maxMs);
      if (Date.now() > hardDeadline) {
        results.push({ job: cur, r: null, why: "time budget" });
        return next();
      }
      kill = setTimeout(() => w.kill("SIGKILL"), deadline - Date.now() + 25000);
      w.send({ ...cur, deadline, dir });
    };
    w.on("message", (m) => {
      if (m.ready) return next();
      results.push({ job: cur, r: m.r });
      cur = null;
      next();
    });
    w.on("exit", (code, sig) => {
      clearTimeout(kill);
      active--;
      if (cur) results.push({ job: cur, r: null, why: "worker ended: " + (sig ?? code) });
      if ((cur || w.retire) && queue.length) return spawnWorker();
      if (active === 0) resolve();
    });
  };
  if (jobs.length === 0) resolve();
  for (let i = 0; i < NW; i++) spawnWorker();
});

// ------------------------------------------------------------------- verdict
const tot = { paths: 0, aborted: 0, decisions: 0, asserts: 0, validated: 0, unknown: 0, queries: 0, sat: 0, unsat: 0, solverMs: 0, cacheHits: 0, concretised: 0 };
const incomplete = [], violations = [], knownHit = new Map(), unreproduced = [], samples = [], errors = [];
const msgs = new Set();
for (const { job, r, why } of results) {
  const H = harness[job.harness];
  const tag = `${job.harness}#${job.caseNo}`;
  if (!r || r.error) {
    H.complete = false;
    incomplete.push(`${tag}: ${why ?? r.error}`);
    if (r?.error) errors.push(`${tag}: ${r.error}`);
    continue;
  }
  for (const k of ["paths", "aborted", "decisions", "asserts", "validated", "unknown", "concretised"]) tot[k] += r[k];
  tot.queries += r.solver.queries; tot.sat += r.solver.sat; tot.unsat += r.solver.unsat; tot.solverMs += r.solver.ms; tot.cacheHits += r.solver.cacheHits;
  for (const [c, n] of Object.entries(r.covers)) H.got[c] = (H.got[c] ?? 0) + n;
  if (!r.complete && !r.violations.length) {
    H.complete = false;
    incomplete.push(`${tag}: ${[...new Set([...r.truncated, ...r.unsupported])].slice(0, 3).join("; ")}`);
  }
  if (r.nMismatches) {
    H.complete = false;
    incomplete.push(`${tag}: ${r.nMismatches} path(s) where the encoding and the real run disagree, e.g. ${JSON.stringify(r.mismatches[0])}`);
  }
  for (const u of r.unreproduced) unreproduced.push({ tag, ...u });
  for (const v of r.violations) {
    const k = isKnown(v, job.harness);
    if (k) knownHit.set(k.id, k);
    else violations.push({ harness: job.harness, ...v });
  }
  if (samples.length < 12 && r.samples.length) samples.push({ harness: job.harness, case: job.caseArg, ...r.samples[r.samples.length - 1] });
  if (verbose) console.error(`${tag} ${JSON.stringify(job.caseArg)} paths=${r.paths} aborted=${r.aborted} dec=${r.decisions} asserts=${r.asserts} q=${r.solver.queries} solver=${Math.round(r.solver.ms)}ms ${r.ms}ms ${r.complete ? "" : "INCOMPLETE " + [...new Set([...r.truncated, ...r.unsupported])].slice(0, 3).join("; ")} ${JSON.stringify(r.covers)}`);
}
const missing = [];
for (const H of Object.values(harness)) {
  if (onlyCase === undefined) for (const c of H.covers) if (!H.got[c]) missing.push(`${H.name}: ${c}`);
}
fs.mkdirSync(path.join(HERE, "evidence", "replays"), { recursive: true });
const lineCount = Object.values(b.lines).reduce((x, y) => x + y, 0);
const evidence = {
  property: pid, tier, seed, level: "model_checking",
  coverage: {
    states: tot.decisions + tot.paths, transitions: tot.decisions,
    traces_validated_against_impl: tot.validated,
    paths: tot.paths, assertions_decided: tot.asserts, discarded_by_assumption: tot.aborted,
    solver_queries: tot.queries, solver_sat: tot.sat, solver_unsat: tot.unsat, solver_cache_hits: tot.cacheHits, solver_unknown: tot.unknown,
    solver_seconds: Math.round(tot.solverMs) / 1000,
    exhaustive: incomplete.length === 0,
    explanation: "Bounded symbolic execution of the instrumented real source; states = branch points + completed paths, transitions = branch decisions; each completed path was replayed with a solver model on the uninstrumented build and its observations compared.",
    cases: jobs.length, incomplete: incomplete.slice(0, 40), missing_witnesses: missing,
    encoded: { files: b.functions, lines: lineCount }, cuts: b.stubsApplied,
    harnesses: Object.values(harness).map((h) => ({ name: h.name, bounds: h.bounds, assumptions: h.assumptions, cases: h.cases, witnesses: h.got, complete: h.complete })),
    unreproduced: unreproduced.slice(0, 5),
    build_s: buildMs / 1000,
    samples,
  },
  assumptions: [...new Set(Object.values(harness).flatMap((h) => h.assumptions)), ...b.stubsApplied.map((s) => `cut: body of ${s} replaced`), ...Object.entries({ ...conf.modules, ...conf.symModules }).map(([k, v]) => `modelled: ${k} by ${v}`)],
  wall_s: (Date.now() - t0) / 1000,
  violations: violations.length,
};
fs.writeFileSync(path.join(HERE, "evidence", pid + ".json"), JSON.stringify(evidence, null, 1) + "\n");

for (const k of knownHit.values()) console.log(`KNOWN-FINDING: property=${pid} ${k.id}: ${k.text}`);
console.log(`${pid} ${tier}: ${jobs.length} cases, ${tot.paths} paths, ${tot.asserts} assertions, ${tot.queries} queries (${(tot.solverMs / 1000).toFixed(1)}s), ${tot.validated} traces validated, ${incomplete.length} incomplete, ${((Date.now() - t0) / 1000).toFixed(1)}s (build ${(buildMs / 1000).toFixed(1)}s)`);
for (const i of incomplete.slice(0, verbose ? 100 : 5)) console.log("  incomplete: " + i.slice(0, verbose ? 1500 : 300));
for (const i of missing) console.log("  missing witness: " + i);
if (violations.length) {
  let n = 0;
  for (const v of violations) {
    const key = v.harness + v.message;
    if (msgs.has(key)) continue;
    msgs.add(key);
    const f = path.join(HERE, "evidence", "replays", `${pid}-${v.harness}-${n++}.json`);
    fs.writeFileSync(f, JSON.stringify({ property: pid, ...v, command: `node check.mjs ${pid} --replay ${path.relative(HERE, f)}` }, null, 1) + "\n");
    console.log(`  ${v.harness}: ${v.message}  case=${JSON.stringify(v.case)} inputs=${JSON.stringify(v.inputs)}`.slice(0, 1200));
    console.log(`VIOLATION property=${pid} replay=${f}`);
  }
  process.exit(1);
}
for (const u of unreproduced.slice(0, 5)) console.log("  not reproduced on the real code (encoding error): " + JSON.stringify(u).slice(0, 600));
if (unreproduced.length) evidenceNote();
function evidenceNote() { /* recorded in the evidence; not a violation */ }
if (missing.length && incomplete.length === 0) {
  console.log(`${pid}: vacuous: a reachability witness was not found`);
  process.exit(2);
}
process.exit(0);
