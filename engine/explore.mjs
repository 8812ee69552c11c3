// Path explorer: depth-first, by re-execution with a decision prefix.
import * as X from "./expr.mjs";
import * as rt from "./rt.mjs";
import { Solver, stats } from "./solver.mjs";

/** Keep only constraints (transitively) sharing variables with the goal. */
function slice(pc, goal) {
  const want = new Set(X.vars(goal));
  const rest = pc.map((c) => [c, X.vars(c)]);
  const out = [];
  let changed = true, pend = rest;
  while (changed) {
    changed = false;
    const next = [];
    for (const ent of pend) {
      let hit = false;
      for (const v of ent[1]) if (want.has(v)) { hit = true; break; }
      if (hit) {
        out.push(ent[0]);
        for (const v of ent[1]) want.add(v);
        changed = true;
      } else next.push(ent);
    }
    pend = next;
  }
  return out;
}

export class Explorer {
  constructor(opts) {
    this.solver = new Solver(opts.dir, opts.solverCmd, opts.solverTimeout ?? 20000);
    this.opts = opts;
  }
  close() {
    this.solver.close();
  }
  /** sat check of pc ∧ goal; base = model satisfying pc */
  sat(pc, goal, base) {
    if (goal === X.FALSE) return { status: "unsat" };
    if (goal === X.TRUE) return { status: "sat", model: new Map(base) };
    const r = this.solver.check([...new Set([...slice(pc, goal), goal])]);
    if (r.status !== "sat") return r;
    const model = new Map(base);
    for (const [k, v] of r.model) model.set(k, v);
    return { status: "sat", model };
  }
  /**
   * Explore every feasible path of fn(sx).
   * onPath(result) is called for each completed path and may return a violation.
   */
  async run(fn, makeSx, { maxPaths = 1e9, deadline = Infinity, onPath }) {
    const res = {
      paths: 0, aborted: 0, decisions: 0, asserts: 0, truncated: [], unsupported: [],
      unknown: 0, violations: [], covers: {}, maxDepth: 0, concretised: 0, complete: true,
    };
    const work = [{ prefix: [], model: new Map(), pc: null }];
    while (work.length) {
      if (res.paths >= maxPaths || Date.now() > deadline) {
        res.complete = false;
        res.truncated.push(res.paths >= maxPaths ? "path budget" : "time budget");
        break;
      }
      const item = work.pop();
      let model = item.model;
      if (item.pc) {
        const r = this.sat(item.pc, item.goal, item.model);
        if (r.status === "unsat") continue;
        if (r.status === "unknown") {
          res.unknown++;
          res.complete = false;
          res.truncated.push("solver gave no answer on a branch");
          continue;
        }
        model = r.model;
      }
      const p = new rt.Path(item.prefix, model);
      p.explorer = this;
      rt.setPath(p);
      let err = null;
      try {
        await fn(makeSx(p));
      } catch (e) {
        err = e;
      }
      p.done = true;
      res.decisions += Math.max(0, p.decisions.length - item.prefix.length);
      res.maxDepth = Math.max(res.maxDepth, p.decisions.length);
      res.concretised += p.concretised;
      // schedule alternatives
      let stop = false;
      for (let i = item.prefix.length; i < p.decisions.length; i++) {
        const d = p.decisions[i];
        work.push({
          prefix: [...p.decisions.slice(0, i).map(({ e, dir, v }) => ({ e, dir, v })), { e: d.e, dir: !d.dir, v: d.v }],
          model: p.model,
          pc: p.pc.slice(0, d.npc),
          goal: d.dir ? X.not(d.e) : d.e,
        });
      }
      if (p.truncated) {
        res.complete = false;
        res.truncated.push(p.truncated);
        continue;
      }
      if (p.unsupported.length) {
        res.unsupported.push(...p.unsupported);
        res.complete = false;
        continue;
      }
      if (p.aborted || err instanceof rt.PathAbort) {
        res.aborted++;
        if (p.violation) {
          const v = await onPath?.(p, null);
          if (v) res.violations.push(v);
          if (v && res.violations.length >= (this.opts.maxViolations ?? 1)) break;
        }
        continue;
      }
      res.paths++;
      res.asserts += p.asserts;
      for (const c of p.covers) res.covers[c] = (res.covers[c] ?? 0) + 1;
      const v = await onPath?.(p, err);
      if (v) {
        res.violations.push(v);
        if (res.violations.length >= (this.opts.maxViolations ?? 1)) break;
      }
    }
    rt.setPath(null);
    return res;
  }
}
export { stats };
