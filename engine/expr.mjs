// Hash-consed integer / boolean expressions (SMT-LIB LIA), with constant
// folding, interval tracking and evaluation under a model.
//
// Integer values are JS numbers when safe and bigints otherwise.

const table = new Map();
let nextId = 1;

export const norm = (v) => {
  if (typeof v === "bigint") {
    return v >= -9007199254740991n && v <= 9007199254740991n ? Number(v) : v;
  }
  return v === 0 ? 0 : v;
};
const safe = Number.isSafeInteger;
export function iadd(a, b) {
  if (typeof a === "number" && typeof b === "number") {
    const r = a + b;
    if (safe(r)) return r === 0 ? 0 : r;
  }
  return norm(BigInt(a) + BigInt(b));
}
export function imul(a, b) {
  if (typeof a === "number" && typeof b === "number") {
    const r = a * b;
    if (safe(r)) return r === 0 ? 0 : r;
  }
  return norm(BigInt(a) * BigInt(b));
}
// SMT-LIB div/mod (floor for positive divisor; we only use positive divisors)
export function idiv(a, b) {
  const A = BigInt(a), B = BigInt(b);
  let q = A / B;
  const r = A % B;
  if (r < 0n) q -= B > 0n ? 1n : -1n;
  return norm(q);
}
export function imod(a, b) {
  const A = BigInt(a), B = BigInt(b);
  let r = A % B;
  if (r < 0n) r += B > 0n ? B : -B;
  return norm(r);
}
export const ilt = (a, b) => a < b;
export const ieq = (a, b) => a == b;

class Node {
  constructor(op, args, lo, hi) {
    this.id = nextId++;
    this.op = op;
    this.args = args;
    this.lo = lo; // interval (JS numbers, may be +-Infinity); null for Bool
    this.hi = hi;
    this._vars = null;
    this._val = undefined;
    this._valGen = -1;
  }
  get isBool() {
    return this.lo === null;
  }
}

function mk(op, args, lo, hi) {
  let key = op;
  for (const a of args) {
    key += a instanceof Node ? "#" + a.id : "|" + keyOf(a);
  }
  let n = table.get(key);
  if (n === undefined) {
    n = new Node(op, args, lo, hi);
    if (op !== "v" && op !== "bv" && op !== "k" && op !== "true" && op !== "false") n = tabulate(n);
    table.set(key, n);
  }
  return n;
}
// A term over a single variable of small domain (a character, a digit) is a table.
// Terms with the same table are the same term, a Boolean one is a set of values of the
// variable, and an integer one has exact bounds.
const SMALL = 160;
const byTable = new Map();
function domOf(v) {
  if (v._dom === undefined) {
    v._dom = null;
    const size = (v.args[3] ?? [[v.lo, v.hi]]).reduce((n, [a, b]) => n + (b - a + 1), 0);
    if (size <= SMALL) {
      v._dom = [];
      for (const [a, b] of v.args[3] ?? [[v.lo, v.hi]]) for (let x = a; x <= b; x++) v._dom.push(x);
    }
  }
  return v._dom;
}
/** the variables of e, in order, when they are small and few; false otherwise */
function smallVars(e) {
  if (e._sv === undefined) {
    if (e.op === "k" || e.op === "true" || e.op === "false") e._sv = [];
    else if (e.op === "v") e._sv = domOf(e) ? [e] : false;
    else if (e.op === "bv") e._sv = false;
    else {
      let r = [];
      for (const a of e.args) {
        if (!(a instanceof Node)) continue;
        const o = smallVars(a);
        if (o === false) { r = false; break; }
        if (o.every((v) => r.includes(v))) continue;
        r = [...new Set([...r, ...o])].sort((p, q) => p.id - q.id);
        if (r.length > 1 && r.reduce((n, v) => n * domOf(v).length, 1) > 1100) { r = false; break; }
      }
      e._sv = r;
    }
  }
  return e._sv;
}
/** the values of e over all values of the variables vs (the last one varying fastest) */
function tabOver(e, vs) {
  const t = ownTab(e);
  if (!t) return null;
  const own = smallVars(e);
  if (own.length === vs.length) return t;
  const n = vs.reduce((m, v) => m * domOf(v).length, 1);
  if (own.length === 0) return new Array(n).fill(t[0]);
  const out = new Array(n), pos = vs.map((v) => own.indexOf(v)), idx = vs.map(() => 0);
  const stride = new Array(own.length).fill(1);
  for (let i = own.length - 2; i >= 0; i--) stride[i] = stride[i + 1] * domOf(own[i + 1]).length;
  for (let i = 0; i < n; i++) {
    let k = 0;
    for (let j = 0; j < vs.length; j++) if (pos[j] >= 0) k += idx[j] * stride[pos[j]];
    out[i] = t[k];
    for (let j = vs.length - 1; j >= 0; j--) {
      if (++idx[j] < domOf(vs[j]).length) break;
      idx[j] = 0;
    }
  }
  return out;
}
function ownTab(e) {
  if (e._tab !== undefined) return e._tab;
  const a = e.args;
  if (e.op === "v") return e._tab = domOf(e);
  if (e.op === "k") return e._tab = [a[0]];
  if (e.op === "true" || e.op === "false") return e._tab = [e.op === "true"];
  const vs = smallVars(e), n = vs.reduce((m, v) => m * domOf(v).length, 1);
  const ts = a.map((x) => x instanceof Node ? tabOver(x, vs) : undefined);
  if (ts.includes(null)) return e._tab = null;
  const t = new Array(n);
  for (let i = 0; i < n; i++) {
    switch (e.op) {
      case "+": t[i] = iadd(ts[0][i], ts[1][i]); break;
      case "*": t[i] = imul(ts[0][i], ts[1][i]); break;
      case "div": t[i] = idiv(ts[0][i], ts[1][i]); break;
      case "mod": t[i] = imod(ts[0][i], ts[1][i]); break;
      case "ite": t[i] = ts[0][i] ? ts[1][i] : ts[2][i]; break;
      case "=": t[i] = ieq(ts[0][i], ts[1][i]); break;
      case "<=": t[i] = ts[0][i] <= ts[1][i]; break;
      case "not": t[i] = !ts[0][i]; break;
      case "and": t[i] = ts.every((q) => q[i]); break;
      case "or": t[i] = ts.some((q) => q[i]); break;
      case "in": t[i] = inRanges(Number(ts[0][i]), a[1]); break;
      default: return e._tab = null;
    }
  }
  return e._tab = t;
}
/** the values e takes, when it ranges over few small variables */
export function valuesOf(e) {
  return smallVars(e) ? ownTab(e) : null;
}
function tabulate(n) {
  const vs = smallVars(n);
  if (!vs || vs.length === 0) return n;
  const t = ownTab(n);
  if (!t) return n;
  if (n.isBool) {
    if (vs.length === 1) {
      const v = vs[0], D = domOf(v);
      if (n.op === "in" && n.args[0] === v) return n;
      const rs = [];
      for (let i = 0; i < t.length; i++) {
        if (!t[i]) continue;
        const last = rs[rs.length - 1];
        if (last && last[1] === D[i] - 1) last[1] = D[i];
        else rs.push([D[i], D[i]]);
      }
      return inSet(v, rs);
    }
    if (t.every((x) => x)) return TRUE;
    if (!t.some((x) => x)) return FALSE;
    const key = "b" + vs.map((v) => v.id) + ":" + t.map((x) => x ? 1 : 0).join("");
    const c = byTable.get(key);
    if (c) return c;
    byTable.set(key, n);
    return n;
  }
  if (!t.every((x) => typeof x === "number")) return n;
  let lo = t[0], hi = t[0];
  for (const x of t) { if (x < lo) lo = x; if (x > hi) hi = x; }
  if (lo === hi) return konst(lo);
  const key = vs.map((v) => v.id) + ":" + t.join(",");
  const c = byTable.get(key);
  if (c) return c;
  n.lo = lo;
  n.hi = hi;
  byTable.set(key, n);
  return n;
}
function keyOf(a) {
  if (Array.isArray(a)) return "[" + a.map(keyOf).join(",") + "]";
  return String(a);
}

export const isNode = (x) => x instanceof Node;
const toN = (v) => Number(v);

export function konst(v) {
  v = norm(v);
  return mk("k", [v], toN(v), toN(v));
}
export const TRUE = mk("true", [], null, null);
export const FALSE = mk("false", [], null, null);
export const bool = (b) => (b ? TRUE : FALSE);
export const isK = (e) => e.op === "k";
export const kval = (e) => e.args[0];

/** dom: the ranges of values, when they are not all of lo..hi */
export function ivar(name, lo, hi, dom) {
  // the range is part of the identity: cases of one worker reuse names
  const v = mk("v", dom && dom.length > 1 ? [name, lo, hi, dom] : [name, lo, hi], lo ?? -Infinity, hi ?? Infinity);
  if (v._tab === undefined && domOf(v)) byTable.set(v.id + ":" + domOf(v).join(","), v);
  return v;
}
export function bvar(name) {
  return mk("bv", [name], null, null);
}

const E = (x) => (x instanceof Node ? x : konst(x));
export { E as toExpr };

export function add(a, b) {
  a = E(a);
  b = E(b);
  if (isK(a) && isK(b)) return konst(iadd(kval(a), kval(b)));
  if (isK(a)) [a, b] = [b, a];
  if (isK(b)) {
    if (kval(b) === 0) return a;
    if (a.op === "+" && isK(a.args[1])) {
      return add(a.args[0], konst(iadd(kval(a.args[1]), kval(b))));
    }
    if (a.op === "ite" && isK(a.args[1]) && isK(a.args[2])) {
      return ite(a.args[0], add(a.args[1], b), add(a.args[2], b));
    }
  }
  return mk("+", [a, b], a.lo + b.lo, a.hi + b.hi);
}
export function neg(a) {
  return mul(a, -1);
}
export function sub(a, b) {
  a = E(a);
  b = E(b);
  if (a === b) return konst(0);
  return add(a, neg(b));
}
export function mul(a, b) {
  a = E(a);
  b = E(b);
  if (isK(a) && isK(b)) return konst(imul(kval(a), kval(b)));
  if (isK(a)) [a, b] = [b, a];
  if (isK(b)) {
    if (kval(b) === 0) return konst(0);
    if (kval(b) === 1) return a;
    if (a.op === "*" && isK(a.args[1])) {
      return mul(a.args[0], konst(imul(kval(a.args[1]), kval(b))));
    }
    if (a.op === "+" && isK(a.args[1])) {
      return add(mul(a.args[0], b), mul(a.args[1], b));
    }
  }
  const c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi].map((x) =>
    Number.isNaN(x) ? 0 : x
  );
  return mk("*", [a, b], Math.min(...c), Math.max(...c));
}
/** a = Σ coefficient·atom + constant, with bigint coefficients */
function linear(a, f = 1n, out = { atoms: new Map(), c: 0n }) {
  if (isK(a)) out.c += f * BigInt(kval(a));
  else if (a.op === "+") { linear(a.args[0], f, out); linear(a.args[1], f, out); }
  else if (a.op === "*" && isK(a.args[1])) linear(a.args[0], f * BigInt(kval(a.args[1])), out);
  else out.atoms.set(a, (out.atoms.get(a) ?? 0n) + f);
  return out;
}
const gcd = (a, b) => { a = a < 0n ? -a : a; b = b < 0n ? -b : b; while (b) [a, b] = [b, a % b]; return a; };
/** [Q, R] with a = k·Q + R and 0 <= R < k by range, or null; else a reduced [Q, null, a', k'] */
function splitDiv(a, k) {
  const kb = BigInt(k), { atoms, c } = linear(a);
  let Q = konst(0), R = konst(0), simple = true;
  for (const [x, f] of atoms) {
    if (f === 0n) continue;
    let r = f % kb;
    if (r < 0n) r += kb;
    const q = (f - r) / kb;
    if (q !== 0n) Q = add(Q, mul(x, konst(q)));
    if (r !== 0n) { R = add(R, mul(x, konst(r))); if (q !== 0n) simple = false; }
  }
  let rc = c % kb;
  if (rc < 0n) rc += kb;
  Q = add(Q, konst((c - rc) / kb));
  R = add(R, konst(rc));
  if (R.lo >= 0 && R.hi < toN(k) && (R.hi < 9e15 || toN(k) - R.hi > 1e6)) return { Q, R };
  // common factor of k and every coefficient of R (the constant only contributes its quotient)
  let g = kb;
  for (const f of atoms.values()) g = gcd(g, f);
  if (g > 1n && rc % g === 0n && simple) {
    let r2 = konst(rc / g);
    for (const [x, f] of atoms) { let r = f % kb; if (r < 0n) r += kb; if (r !== 0n) r2 = add(r2, mul(x, konst(r / g))); }
    return { Q, reduced: r2, k2: kb / g, g };
  }
  return null;
}
// floor division / modulus by positive constant
export function div(a, k) {
  a = E(a);
  k = norm(k);
  if (isK(a)) return konst(idiv(kval(a), k));
  if (k === 1) return a;
  const kn = toN(k);
  if (a.op === "+" || a.op === "*") {
    const s = splitDiv(a, k);
    if (s?.R) return s.Q;
    if (s) return add(s.Q, div(s.reduced, s.k2));
  }
  return mk("div", [a, konst(k)], Math.floor(a.lo / kn), Math.floor(a.hi / kn));
}
export function mod(a, k) {
  a = E(a);
  k = norm(k);
  if (isK(a)) return konst(imod(kval(a), k));
  if (a.lo >= 0 && a.hi < toN(k)) return a;
  if (k === 1) return konst(0);
  if (a.op === "+" || a.op === "*") {
    const s = splitDiv(a, k);
    if (s?.R) return s.R;
    if (s) return mul(mod(s.reduced, s.k2), konst(s.g));
  }
  return mk("mod", [a, konst(k)], 0, toN(k) - 1);
}
export function ite(c, a, b) {
  if (c === TRUE) return a instanceof Node ? a : E(a);
  if (c === FALSE) return b instanceof Node ? b : E(b);
  a = E(a);
  b = E(b);
  if (a === b) return a;
  if (a.isBool) return or(and(c, a), and(not(c), b));
  if (c.op === "not") return ite(c.args[0], b, a);
  return mk("ite", [c, a, b], Math.min(a.lo, b.lo), Math.max(a.hi, b.hi));
}
export function min(a, b) {
  a = E(a);
  b = E(b);
  if (a.hi <= b.lo) return a;
  if (b.hi <= a.lo) return b;
  return ite(le(a, b), a, b);
}
export function max(a, b) {
  a = E(a);
  b = E(b);
  if (a.hi <= b.lo) return b;
  if (b.hi <= a.lo) return a;
  return ite(le(a, b), b, a);
}

// ---- booleans
export function eq(a, b) {
  a = E(a);
  b = E(b);
  if (a === b) return TRUE;
  if (isK(a) && isK(b)) return bool(ieq(kval(a), kval(b)));
  if (a.hi < b.lo || b.hi < a.lo) return FALSE;
  if (isK(a)) [a, b] = [b, a];
  if (isK(b)) {
    if (a.op === "+" && isK(a.args[1])) {
      return eq(a.args[0], konst(iadd(kval(b), imul(-1, kval(a.args[1])))));
    }
    if (a.op === "*" && isK(a.args[1])) {
      const m = kval(a.args[1]);
      if (imod(kval(b), m < 0 ? imul(-1, m) : m) !== 0) return FALSE;
      return eq(a.args[0], konst(norm(BigInt(kval(b)) / BigInt(m))));
    }
    if (a.op === "ite" && (isK(a.args[1]) || isK(a.args[2]))) {
      const [c, x, y] = a.args;
      return or(and(c, eq(x, b)), and(not(c), eq(y, b)));
    }
    if (a.op === "v") {
      const k = Number(kval(b));
      return inSet(a, [[k, k]]);
    }
  }
  if (a.id > b.id) [a, b] = [b, a];
  return mk("=", [a, b], null, null);
}
export function le(a, b) {
  a = E(a);
  b = E(b);
  if (a === b) return TRUE;
  if (a.hi <= b.lo) return TRUE;
  if (a.lo > b.hi) return FALSE;
  if (isK(b) && a.op === "+" && isK(a.args[1])) {
    return le(a.args[0], konst(iadd(kval(b), imul(-1, kval(a.args[1])))));
  }
  if (isK(a) && b.op === "+" && isK(b.args[1])) {
    return le(konst(iadd(kval(a), imul(-1, kval(b.args[1])))), b.args[0]);
  }
  if (isK(b) && a.op === "v" && Number.isFinite(a.lo)) {
    return inSet(a, [[a.lo, Number(kval(b))]]);
  }
  if (isK(a) && b.op === "v" && Number.isFinite(b.hi)) {
    return inSet(b, [[Number(kval(a)), b.hi]]);
  }
  return mk("<=", [a, b], null, null);
}
export const lt = (a, b) => not(le(b, a));
export const ge = (a, b) => le(b, a);
export const gt = (a, b) => not(le(a, b));
export const ne = (a, b) => not(eq(a, b));

export function not(a) {
  if (a === TRUE) return FALSE;
  if (a === FALSE) return TRUE;
  if (a.op === "not") return a.args[0];
  if (a.op === "in") {
    const x = a.args[0];
    if (x.op === "v" && x.args[3]) return inSet(x, intersect(complement(a.args[1], x.lo, x.hi), x.args[3]));
    if (Number.isFinite(x.lo) && Number.isFinite(x.hi)) {
      return inSet(x, complement(a.args[1], x.lo, x.hi));
    }
  }
  return mk("not", [a], null, null);
}
function nary(op, xs, unit, zero) {
  const seen = new Map();
  const push = (x) => {
    if (x === unit) return true;
    if (x === zero) return false;
    if (x.op === op) {
      for (const y of x.args) if (!push(y)) return false;
      return true;
    }
    if (seen.has(not(x).id)) return false;
    if (x.op === "in") {
      // intersect / union with earlier set on the same term
      const k = "in" + x.args[0].id;
      const prev = seen.get(k);
      if (prev) {
        const m = op === "and"
          ? inSet(x.args[0], intersect(prev.args[1], x.args[1]))
          : inSet(x.args[0], union(prev.args[1], x.args[1]));
        if (m === zero) return false;
        if (m === unit) {
          seen.delete(k);
          return true;
        }
        seen.set(k, m);
        return true;
      }
      seen.set(k, x);
      return true;
    }
    seen.set(x.id, x);
    return true;
  };
  for (const x of xs) if (!push(x)) return zero;
  const args = [...seen.values()].sort((p, q) => p.id - q.id);
  if (args.length === 0) return unit;
  if (args.length === 1) return args[0];
  return mk(op, args, null, null);
}
export const and = (...xs) => nary("and", xs, TRUE, FALSE);
export const or = (...xs) => nary("or", xs, FALSE, TRUE);
export const implies = (a, b) => or(not(a), b);
export const iff = (a, b) =>
  a === b ? TRUE : or(and(a, b), and(not(a), not(b)));

// ---- range sets
export function normRanges(rs) {
  rs = rs.filter(([a, b]) => a <= b).sort((x, y) => x[0] - y[0]);
  const out = [];
  for (const [a, b] of rs) {
    const last = out[out.length - 1];
    if (last && a <= last[1] + 1) last[1] = Math.max(last[1], b);
    else out.push([a, b]);
  }
  return out;
}
export function intersect(A, B) {
  const out = [];
  let i = 0, j = 0;
  while (i < A.length && j < B.length) {
    const lo = Math.max(A[i][0], B[j][0]), hi = Math.min(A[i][1], B[j][1]);
    if (lo <= hi) out.push([lo, hi]);
    if (A[i][1] < B[j][1]) i++;
    else j++;
  }
  return out;
}
export const union = (A, B) =>
  normRanges([...A, ...B].map((r) => [...r]));
export function complement(A, lo, hi) {
  const out = [];
  let p = lo;
  for (const [a, b] of A) {
    if (b < lo) continue;
    if (a > hi) break;
    if (a > p) out.push([p, a - 1]);
    p = Math.max(p, b + 1);
  }
  if (p <= hi) out.push([p, hi]);
  return out;
}
const inRanges = (v, rs) => {
  for (const [a, b] of rs) if (v >= a && v <= b) return true;
  return false;
};
/** x ∈ ranges (sorted, disjoint). */
export function inSet(x, ranges) {
  x = E(x);
  if (isK(x)) return bool(inRanges(Number(kval(x)), ranges));
  if (x.op === "+" && isK(x.args[1]) && x.args[0].op === "v") {
    const k = Number(kval(x.args[1]));
    return inSet(x.args[0], ranges.map(([a, b]) => [a - k, b - k]));
  }
  const dom = x.op === "v" && x.args[3] || [[x.lo, x.hi]];
  ranges = intersect(ranges, dom);
  if (ranges.length === 0) return FALSE;
  if (dom.length > 1 && ranges.length === dom.length && ranges.every((r, i) => r[0] === dom[i][0] && r[1] === dom[i][1])) return TRUE;
  if (
    dom.length === 1 &&
    ranges.length === 1 && ranges[0][0] <= x.lo && ranges[0][1] >= x.hi
  ) return TRUE;
  return mk("in", [x, ranges], null, null);
}

// ---- evaluation
let gen = 0;
export function evalIn(e, model) {
  gen++;
  return ev(e, model);
}
function ev(e, m) {
  if (e._valGen === gen) return e._val;
  let r;
  const a = e.args;
  switch (e.op) {
    case "k": r = a[0]; break;
    case "true": r = true; break;
    case "false": r = false; break;
    case "v": {
      r = m.get(a[0]);
      if (r === undefined) {
        r = Number.isFinite(e.lo) ? Math.max(e.lo, Math.min(e.hi, 97)) : 0;
        if (a[3] && !inRanges(r, a[3])) r = e.lo;
        m.set(a[0], r);
      }
      break;
    }
    case "bv": {
      r = m.get(a[0]);
      if (r === undefined) {
        r = false;
        m.set(a[0], r);
      }
      break;
    }
    case "+": r = iadd(ev(a[0], m), ev(a[1], m)); break;
    case "*": r = imul(ev(a[0], m), ev(a[1], m)); break;
    case "div": r = idiv(ev(a[0], m), kval(a[1])); break;
    case "mod": r = imod(ev(a[0], m), kval(a[1])); break;
    case "ite": r = ev(a[0], m) ? ev(a[1], m) : ev(a[2], m); break;
    case "=": r = ieq(ev(a[0], m), ev(a[1], m)); break;
    case "<=": r = ev(a[0], m) <= ev(a[1], m); break;
    case "not": r = !ev(a[0], m); break;
    case "and": r = true; for (const x of a) if (!ev(x, m)) { r = false; break; } break;
    case "or": r = false; for (const x of a) if (ev(x, m)) { r = true; break; } break;
    case "in": r = inRanges(Number(ev(a[0], m)), a[1]); break;
    default: throw new Error("eval " + e.op);
  }
  e._val = r;
  e._valGen = gen;
  return r;
}

/** Set of variable nodes in e (cached). */
export function vars(e) {
  if (e._vars) return e._vars;
  let s;
  if (e.op === "v" || e.op === "bv") s = new Set([e]);
  else {
    s = new Set();
    for (const a of e.args) {
      if (a instanceof Node) for (const v of vars(a)) s.add(v);
    }
  }
  e._vars = s;
  return s;
}

// ---- SMT-LIB emission
export const smtNum = (v) => {
  const s = String(v);
  return s[0] === "-" ? `(- ${s.slice(1)})` : s;
};
export const smtName = (s) => "|" + s + "|";

/** Emit a list of asserted constraints, sharing subterms via define-fun. */
export function emit(constraints) {
  const cnt = new Map();
  const count = (e) => {
    const c = cnt.get(e) ?? 0;
    cnt.set(e, c + 1);
    if (c === 0) for (const a of e.args) if (a instanceof Node) count(a);
  };
  for (const c of constraints) count(c);
  let out = "";
  const names = new Map();
  const declared = new Set();
  const term = (e) => {
    const n = names.get(e);
    if (n) return n;
    const a = e.args;
    let s;
    switch (e.op) {
      case "k": return smtNum(a[0]);
      case "true": case "false": return e.op;
      case "v":
        if (!declared.has(e)) {
          declared.add(e);
          out += `(declare-const ${smtName(a[0])} Int)\n`;
          if (Number.isFinite(e.lo)) out += `(assert (<= ${smtNum(e.lo)} ${smtName(a[0])}))\n`;
          if (Number.isFinite(e.hi)) out += `(assert (<= ${smtName(a[0])} ${smtNum(e.hi)}))\n`;
          if (a[3]) out += `(assert (or ${a[3].map(([p, q]) => `(and (<= ${smtNum(p)} ${smtName(a[0])}) (<= ${smtName(a[0])} ${smtNum(q)}))`).join(" ")}))\n`;
        }
        return smtName(a[0]);
      case "bv":
        if (!declared.has(e)) {
          declared.add(e);
          out += `(declare-const ${smtName(a[0])} Bool)\n`;
        }
        return smtName(a[0]);
      case "in": {
        const x = term(a[0]);
        const parts = a[1].map(([p, q]) =>
          p === q
            ? `(= ${x} ${smtNum(p)})`
            : `(and (<= ${smtNum(p)} ${x}) (<= ${x} ${smtNum(q)}))`
        );
        s = parts.length === 1 ? parts[0] : `(or ${parts.join(" ")})`;
        break;
      }
      default:
        s = `(${e.op} ${a.map(term).join(" ")})`;
    }
    if (cnt.get(e) > 1 && s.length > 24) {
      const nm = `n!${e.id}`;
      out += `(define-fun ${nm} () ${e.isBool ? "Bool" : "Int"} ${s})\n`;
      names.set(e, nm);
      return nm;
    }
    return s;
  };
  for (const c of constraints) {
    const t = term(c);
    out += `(assert ${t})\n`;
  }
  return { text: out, vars: [...declared] };
}

/** Whether the constraints contain integer division, which linear arithmetic handles badly. */
export function hasDivision(e) {
  if (e._hasDiv !== undefined) return e._hasDiv;
  let r = e.op === "div" || e.op === "mod" || e.op === "*" && !isK(e.args[0]) && !isK(e.args[1]);
  if (!r) for (const a of e.args) if (a instanceof Node && hasDivision(a)) { r = true; break; }
  return e._hasDiv = r;
}
/**
 * The same constraints over bit-vectors wide enough that nothing wraps (every
 * node's interval is known to fit), or null when some node is unbounded.
 */
export function emitBV(constraints) {
  let max = 1;
  const cnt = new Map();
  let ok = true;
  const count = (e) => {
    const c = cnt.get(e) ?? 0;
    cnt.set(e, c + 1);
    if (c) return;
    if (!e.isBool && e.op !== "bv") {
      if (!Number.isFinite(e.lo) || !Number.isFinite(e.hi)) { ok = false; return; }
      max = Math.max(max, Math.abs(e.lo), Math.abs(e.hi));
    }
    if (e.op === "div" || e.op === "mod") max = Math.max(max, Math.abs(e.args[0].lo) + 2 * toN(kval(e.args[1])));
    if (e.op === "in") for (const [p, q] of e.args[1]) max = Math.max(max, Math.abs(p), Math.abs(q));
    for (const a of e.args) if (a instanceof Node) count(a);
  };
  for (const c of constraints) count(c);
  const W = Math.ceil(Math.log2(max + 1)) + 3;
  if (!ok || W > 96) return null;
  const M = 1n << BigInt(W);
  const num = (v) => `(_ bv${((BigInt(v) % M) + M) % M} ${W})`;
  let out = "";
  const names = new Map(), declared = new Set();
  const term = (e) => {
    const nm0 = names.get(e);
    if (nm0) return nm0;
    const a = e.args;
    let s;
    switch (e.op) {
      case "k": return num(a[0]);
      case "true": case "false": return e.op;
      case "v":
        if (!declared.has(e)) {
          declared.add(e);
          const n = smtName(a[0]);
          out += `(declare-const ${n} (_ BitVec ${W}))\n(assert (and (bvsle ${num(e.lo)} ${n}) (bvsle ${n} ${num(e.hi)})))\n`;
          if (a[3]) out += `(assert (or ${a[3].map(([p, q]) => `(and (bvsle ${num(p)} ${n}) (bvsle ${n} ${num(q)}))`).join(" ")}))\n`;
        }
        return smtName(a[0]);
      case "bv":
        if (!declared.has(e)) {
          declared.add(e);
          out += `(declare-const ${smtName(a[0])} Bool)\n`;
        }
        return smtName(a[0]);
      case "in": {
        const x = term(a[0]);
        const parts = a[1].map(([p, q]) => p === q ? `(= ${x} ${num(p)})` : `(and (bvsle ${num(p)} ${x}) (bvsle ${x} ${num(q)}))`);
        s = parts.length === 1 ? parts[0] : `(or ${parts.join(" ")})`;
        break;
      }
      case "+": s = `(bvadd ${term(a[0])} ${term(a[1])})`; break;
      case "*": s = `(bvmul ${term(a[0])} ${term(a[1])})`; break;
      case "<=": s = `(bvsle ${term(a[0])} ${term(a[1])})`; break;
      case "div": case "mod": {
        const k = BigInt(kval(a[1]));
        let x = term(a[0]), m = 0n;
        if (a[0].lo < 0) {
          m = BigInt(Math.ceil(-a[0].lo / toN(k))) + 1n;
          x = `(bvadd ${x} ${num(m * k)})`;
        }
        s = e.op === "mod" ? `(bvurem ${x} ${num(k)})` : `(bvudiv ${x} ${num(k)})`;
        if (e.op === "div" && m) s = `(bvsub ${s} ${num(m)})`;
        break;
      }
      case "=": case "not": case "and": case "or": case "ite":
        s = `(${e.op} ${a.map(term).join(" ")})`;
        break;
      default: ok = false; return "false";
    }
    if (cnt.get(e) > 1 && s.length > 24) {
      const nm = `n!${e.id}`;
      out += `(define-fun ${nm} () ${e.isBool ? "Bool" : `(_ BitVec ${W})`} ${s})\n`;
      names.set(e, nm);
      return nm;
    }
    return s;
  };
  for (const c of constraints) {
    const t = term(c);
    out += `(assert ${t})\n`;
  }
  return ok ? { text: out, vars: [...declared], width: W } : null;
}
