// The harness API, in a symbolic and a concrete (replay) flavour.
import * as X from "./expr.mjs";
import * as rt from "./rt.mjs";

const rangesOf = (spec) => {
  if (spec === undefined) return [[0, 0xd7ff], [0xe000, 0xffff]];
  if (typeof spec === "string") return X.normRanges([...spec].map((c) => [c.charCodeAt(0), c.charCodeAt(0)]));
  return X.normRanges(spec.map((r) => Array.isArray(r) ? r.map((q) => typeof q === "string" ? q.charCodeAt(0) : q) : typeof r === "string" ? [r.charCodeAt(0), r.charCodeAt(0)] : [r, r]));
};
export const ASCII = [[0x20, 0x7e]];

export function makeSym(p, harness, caseArg) {
  const input = (name, kind, get) => {
    p.inputs.push({ name, kind, get });
  };
  const sx = {
    symbolic: true,
    case: caseArg,
    str(name, opts = {}) {
      const min = opts.len ?? opts.min ?? 0, max = opts.len ?? opts.max ?? 4;
      const rs = rangesOf(opts.chars);
      let n = min;
      if (max > min) {
        const L = X.ivar(name + ".len", min, max);
        while (n < max && !rt.branch(X.eq(L, n))) n++;
      }
      const cs = [];
      for (let i = 0; i < n; i++) {
        const pos = opts.at?.[i] !== undefined ? rangesOf(opts.at[i]) : rs;
        if (pos.length === 1 && pos[0][0] === pos[0][1]) { cs.push(pos[0][0]); continue; }
        const v = X.ivar(`${name}[${i}]`, pos[0][0], pos[pos.length - 1][1], pos);
        const f = X.inSet(v, pos);
        if (f !== X.TRUE && p.lookup(f) !== true) {
          if (!X.evalIn(f, p.model)) p.model.set(v.args[0], pos[0][0]);
          p.addFact(f);
          p.learn(f, true);
        }
        cs.push(v);
      }
      const s = rt.mkStr(cs);
      input(name, "str", () => s);
      return s;
    },
    int(name, lo, hi) {
      const v = X.ivar(name, lo, hi);
      if (!p.model.has(name)) p.model.set(name, Math.max(lo, Math.min(hi, 0)));
      const s = rt.mkNum(v);
      input(name, "num", () => s);
      return s;
    },
    /** decimal number n / d */
    dec(name, lo, hi, d) {
      const v = X.ivar(name, lo, hi);
      if (!p.model.has(name)) p.model.set(name, Math.max(lo, Math.min(hi, 0)));
      const s = rt.branch(X.eq(X.mod(v, d), 0)) ? rt.mkNum(X.div(v, d)) : new rt.SymNum(v, d);
      input(name, "num", () => s);
      return s;
    },
    big(name, lo, hi) {
      const v = X.ivar(name, Number(lo), Number(hi));
      if (!p.model.has(name)) p.model.set(name, 0);
      const s = rt.mkBig(v);
      input(name, "big", () => s);
      return s;
    },
    bool(name) {
      const s = new rt.SymBool(X.bvar(name));
      input(name, "bool", () => s);
      return s;
    },
    /** a symbolic boolean decided immediately (forks) */
    flag(name) {
      const s = new rt.SymBool(X.bvar(name));
      input(name, "bool", () => s);
      return rt.t(s);
    },
    /** one of n alternatives (forks) */
    choice(name, n) {
      const v = X.ivar(name, 0, n - 1);
      const s = rt.mkNum(v);
      input(name, "num", () => s);
      if (n === 1) return 0;
      for (let i = 0; i < n - 1; i++) if (rt.branch(X.eq(v, i))) return i;
      return n - 1;
    },
    pick(name, arr) {
      return arr[sx.choice(name, arr.length)];
    },
    assume(c) {
      const e = rt.truthExpr(c);
      if (e === X.TRUE) return;
      const ok = () => { p.addFact(e); p.learn(e, true); };
      if (X.evalIn(e, p.model)) return ok();
      const r = p.explorer.sat(p.pc, e, p.model);
      if (r.status === "sat") {
        // keep earlier decisions valid: the new model satisfies pc ∧ e
        for (const [k, v] of r.model) p.model.set(k, v);
        return ok();
      }
      p.aborted = true;
      throw new rt.PathAbort("assume");
    },
    assert(c, msg = "assertion") {
      const e = rt.truthExpr(c);
      p.asserts++;
      if (e === X.TRUE) return;
      const bad = X.not(e);
      const r = X.evalIn(bad, p.model) ? { status: "sat", model: p.model } : p.explorer.sat(p.pc, bad, p.model);
      if (r.status === "sat") {
        p.model = r.model;
        p.violation = msg;
        p.aborted = true;
        throw new rt.PathAbort("violation: " + msg);
      }
      if (r.status === "unknown") p.truncated = "solver gave no answer on an assertion";
      p.note(e, true);
    },
    fail(msg) {
      sx.assert(false, msg);
    },
    /** native-boolean truth of a condition (forks) */
    is(c) {
      return rt.t(c);
    },
    eq(a, b) {
      return rt.mkBool(deepEq(a, b));
    },
    and: (...cs) => rt.mkBool(X.and(...cs.map(rt.truthExpr))),
    or: (...cs) => rt.mkBool(X.or(...cs.map(rt.truthExpr))),
    not: (c) => rt.not(c),
    implies: (a, b) => rt.mkBool(X.implies(rt.truthExpr(a), rt.truthExpr(b))),
    iff: (a, b) => rt.mkBool(X.iff(rt.truthExpr(a), rt.truthExpr(b))),
    /** per-character predicate: c in ranges / string of characters */
    charIn: (c, spec) => {
      const cs = rt.chars(c);
      return rt.mkBool(X.inSet(cs[0], rangesOf(spec)));
    },
    test: (re, s) => (s instanceof rt.SymStr ? rt.regexTest(re, s) : re.test(s)),
    /** numeric value of a decimal digit string, unbounded (a bigint) */
    decimal: (s) => {
      let e = X.konst(0);
      for (const ch of rt.chars(s)) e = X.add(X.mul(e, 10), X.add(typeof ch === "number" ? X.konst(ch) : ch, -48));
      return rt.mkBig(e);
    },
    ite: (c, a, b) => rt.iteP(c instanceof rt.Sym ? rt.mkBool(rt.truthExpr(c)) : c, () => a, () => b),
    observe(label, v) {
      p.observations.push([label, v]);
    },
    cover(label) {
      p.covers.add(label);
    },
    concrete: (v) => rt.concretize(v),
    typeof: (v) => rt.typeOf(v),
  };
  return sx;
}

function deepEq(a, b, depth = 12) {
  if (a instanceof rt.Sym || b instanceof rt.Sym) return rt.eqExpr(a, b);
  if (a === b || Object.is(a, b)) return X.TRUE;
  if (typeof a !== "object" || typeof b !== "object" || a === null || b === null || depth < 0) return X.FALSE;
  if (Object.prototype.toString.call(a) !== Object.prototype.toString.call(b)) return X.FALSE;
  if (a instanceof URL) return X.bool(a.href === b.href);
  if (a instanceof Date) return X.bool(a.getTime() === b.getTime());
  if (Array.isArray(a)) {
    if (a.length !== b.length) return X.FALSE;
    const f = [];
    for (let i = 0; i < a.length; i++) {
      const q = deepEq(a[i], b[i], depth - 1);
      if (q === X.FALSE) return q;
      f.push(q);
    }
    return X.and(...f);
  }
  const ka = Object.keys(a), kb = Object.keys(b);
  if (ka.length !== kb.length) return X.FALSE;
  const f = [];
  for (const k of ka) {
    if (!Object.prototype.hasOwnProperty.call(b, k)) return X.FALSE;
    const q = deepEq(a[k], b[k], depth - 1);
    if (q === X.FALSE) return q;
    f.push(q);
  }
  return X.and(...f);
}

/** Value of a (possibly symbolic) structure under a model. */
export function valueUnder(v, model, depth = 12) {
  if (v instanceof rt.SymStr) return String.fromCharCode(...v.cs.map((c) => typeof c === "number" ? c : Number(X.evalIn(c, model))));
  if (v instanceof rt.SymNum) return Number(X.evalIn(v.e, model)) / v.d;
  if (v instanceof rt.SymBig) return BigInt(X.evalIn(v.e, model));
  if (v instanceof rt.SymBool) return X.evalIn(v.e, model);
  if (depth < 0 || v === null || typeof v !== "object") return v;
  if (Array.isArray(v)) return v.map((x) => valueUnder(x, model, depth - 1));
  if (v instanceof URL) return { $url: v.href };
  const pr = Object.getPrototypeOf(v);
  if (pr !== Object.prototype && pr !== null) {
    if (v instanceof Error) return { $error: v.constructor.name };
    return String(Object.prototype.toString.call(v));
  }
  const o = {};
  for (const k of Object.keys(v)) o[k] = valueUnder(v[k], model, depth - 1);
  return o;
}
export function inputsUnder(p, model) {
  const o = {};
  for (const i of p.inputs) {
    const v = valueUnder(i.get(), model);
    o[i.name] = typeof v === "bigint" ? { $big: String(v) } : Object.is(v, -0) ? 0 : v;
  }
  return o;
}

export class AssertionFailed extends Error {}
export class AssumptionFailed extends Error {}
/** Concrete replay on the plainly transpiled real code. */
export function makeConcrete(inputs, caseArg) {
  const observations = [];
  const get = (name, dflt) => {
    if (!(name in inputs)) return dflt;
    const v = inputs[name];
    return v !== null && typeof v === "object" && "$big" in v ? BigInt(v.$big) : v;
  };
  const sx = {
    symbolic: false,
    case: caseArg,
    observations,
    covers: new Set(),
    str: (name, opts = {}) => get(name, "a".repeat(opts.len ?? opts.min ?? 0)),
    int: (name, lo) => get(name, lo),
    dec: (name, lo, hi, d) => get(name, lo / d),
    big: (name, lo) => get(name, BigInt(lo)),
    bool: (name) => get(name, false),
    flag: (name) => get(name, false),
    choice: (name) => get(name, 0),
    pick: (name, arr) => arr[get(name, 0)],
    assume(c) {
      if (!c) throw new AssumptionFailed();
    },
    assert(c, msg = "assertion") {
      if (!c) {
        sx.failed ??= msg;
        throw new AssertionFailed(msg);
      }
    },
    fail(msg) {
      sx.assert(false, msg);
    },
    is: (c) => !!c,
    eq: (a, b) => X.TRUE === deepEq(a, b),
    and: (...cs) => cs.every(Boolean),
    or: (...cs) => cs.some(Boolean),
    not: (c) => !c,
    implies: (a, b) => !a || !!b,
    iff: (a, b) => !!a === !!b,
    charIn: (c, spec) => {
      const u = c.charCodeAt(0);
      return rangesOf(spec).some(([p, q]) => u >= p && u <= q);
    },
    test: (re, s) => re.test(s),
    decimal: (s) => s.length === 0 ? 0n : BigInt(s),
    ite: (c, a, b) => (c ? a : b),
    observe(label, v) {
      observations.push([label, v]);
    },
    cover(l) {
      sx.covers.add(l);
    },
    concrete: (v) => v,
    typeof: (v) => typeof v,
  };
  return sx;
}
export { deepEq };
