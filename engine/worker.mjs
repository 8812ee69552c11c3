// Explores the cases it is handed, validates every explored path against the
// plain build of the same sources, and replays counterexamples on it.
import path from "node:path";
import { pathToFileURL } from "node:url";
import { Explorer, stats } from "./explore.mjs";
import { AssertionFailed, AssumptionFailed, inputsUnder, makeConcrete, makeSym, valueUnder } from "./sx.mjs";
import { cfg } from "./rt.mjs";

const mods = new Map();
async function load(kind, out, rel) {
  const f = path.join(out, kind, rel);
  if (!mods.has(f)) mods.set(f, (await import(pathToFileURL(f).href)).default);
  return mods.get(f);
}
const stable = (v) => JSON.stringify(v, (k, x) => {
  if (typeof x === "bigint") return { $big: String(x) };
  if (typeof x === "number" && !Number.isFinite(x)) return { $num: String(x) };
  if (Object.is(x, -0)) return 0;
  if (x === undefined) return { $undef: 1 };
  if (typeof x === "function") return { $fn: 1 };
  return x;
});

export async function concreteRun(mod, inputs, caseArg) {
  const sx = makeConcrete(inputs, caseArg);
  let threw = null;
  try {
    await mod.run(sx);
  } catch (e) {
    if (!(e instanceof AssertionFailed)) threw = e;
  }
  return { sx, threw, failed: sx.failed ?? null, assumption: threw instanceof AssumptionFailed };
}

// the stack of an error, whose message may be symbolic
const traceOf = (e) => { try { return String(e?.stack ?? e); } catch { return `${e?.name ?? "error"} (symbolic message)`; } };
async function runCase(job) {
  const { out, rel, caseArg, deadline, maxPaths, dir, known } = job;
  const sym = await load("sym", out, rel);
  const plain = await load("plain", out, rel);
  cfg.concretizeCap = sym.concretizeCap ?? 24;
  const before = { ...stats };
  const t0 = Date.now();
  const ex = new Explorer({ dir, maxViolations: 6, solverTimeout: sym.solverTimeout ?? 10000 });
  let validated = 0;
  const mismatches = [], unreproduced = [], samples = [];
  const res = await ex.run(sym.run, (p) => makeSym(p, sym, caseArg), {
    deadline, maxPaths,
    async onPath(p, err) {
      const inputs = inputsUnder(p, p.model);
      const c = await concreteRun(plain, inputs, caseArg);
      const want = p.violation ?? (err ? "uncaught " + traceOf(err) : null);
      const got = c.failed ?? (c.threw && !c.assumption ? "uncaught " + (c.threw.stack ?? c.threw) : null);
      if (want && !got) {
        unreproduced.push({ inputs, want });
        return null;
      }
      if (got) {
        const msg = got.split("\n")[0];
        return { message: msg, inputs, case: caseArg, trace: got, symbolic: want };
      }
      // no violation on this path: observations must agree
      if (c.assumption) { mismatches.push({ inputs, why: "assumption" }); return null; }
      const so = p.observations.map(([l, v]) => [l, stable(valueUnder(v, p.model))]);
      const co = c.sx.observations.map(([l, v]) => [l, stable(valueUnder(v, p.model))]);
      if (stable(so) !== stable(co)) mismatches.push({ inputs, sym: so, real: co });
      else {
        validated++;
        if (samples.length < 3) samples.push({ inputs, observations: co });
      }
      return null;
    },
  });
  ex.close();
  const d = {};
  for (const k of Object.keys(stats)) d[k] = stats[k] - before[k];
  return { ...res, validated, mismatches: mismatches.slice(0, 5), nMismatches: mismatches.length, unreproduced, samples, solver: d, ms: Date.now() - t0 };
}

if (process.send) {
  process.on("message", async (job) => {
    let r;
    try {
      r = await runCase(job);
    } catch (e) {
      r = { error: String(e?.stack ?? e) };
    }
    process.send({ id: job.id, r });
  });
  process.on("unhandledRejection", () => {});
  process.send({ ready: true });
}
