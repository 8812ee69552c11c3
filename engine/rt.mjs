// Symbolic-execution runtime.  Instrumented code calls these helpers; symbolic
// primitive values are instances of Sym* classes, everything else is native.
import * as X from "./expr.mjs";
import * as R from "./regex.mjs";

// ---------------------------------------------------------------- path state
export class PathAbort extends Error {}
export class Unsupported extends Error {}

export let P = null; // current path
export function setPath(p) {
  P = p;
}
export const cfg = { concretizeCap: 24 };

export class Path {
  constructor(prefix, model) {
    this.prefix = prefix; // [{e, dir, v?}]
    this.model = model;
    this.pos = 0;
    this.decisions = [];
    this.pc = []; // constraints in order (including definitional ones)
    this.known = new Map();
    this.aborted = false;
    this.truncated = null;
    this.unsupported = [];
    this.inputs = []; // {name, kind, ...}
    this.names = new Map();
    this.observations = [];
    this.covers = new Set();
    this.concretised = 0;
    this.asserts = 0;
  }
  addFact(e) {
    this.pc.push(e);
    this.note(e, true);
  }
  note(e, v) {
    this.known.set(e.id, v);
    if (e.op === "not") this.known.set(e.args[0].id, !v);
    if (v && e.op === "and") for (const a of e.args) this.note(a, true);
    if (!v && e.op === "or") for (const a of e.args) this.note(a, false);
  }
  lookup(e) {
    const k = this.known.get(e.id);
    if (k !== undefined) return k;
    if (e.op === "not") {
      const q = this.known.get(e.args[0].id);
      if (q !== undefined) return !q;
    }
    if (e.op === "in") {
      // syntactic domain of the term on this path
      const dom = this.domain(e.args[0]);
      if (dom) {
        const i = X.intersect(dom, e.args[1]);
        if (i.length === 0) return false;
        if (sameRanges(i, dom)) return true;
      }
    }
    return undefined;
  }
  domain(x) {
    return this.doms?.get(x.id);
  }
  learn(e, v) {
    // refine the syntactic domain of single-term set constraints
    if (e.op === "and" && v) { for (const a of e.args) this.learn(a, true); return; }
    if (e.op === "or" && !v) { for (const a of e.args) this.learn(a, false); return; }
    if (e.op === "not") return this.learn(e.args[0], !v);
    if (e.op !== "in") return;
    const x = e.args[0];
    if (!Number.isFinite(x.lo) || !Number.isFinite(x.hi)) return;
    this.doms ??= new Map();
    const cur = this.doms.get(x.id) ?? [[x.lo, x.hi]];
    const set = v ? e.args[1] : X.complement(e.args[1], x.lo, x.hi);
    this.doms.set(x.id, X.intersect(cur, set));
  }
  /** Fork on a Bool expression. */
  branch(e, extra) {
    if (e === X.TRUE) return true;
    if (e === X.FALSE) return false;
    if (extra === undefined) {
      const k = this.lookup(e);
      if (k !== undefined) return k;
    }
    const i = this.pos++;
    let dir, v = extra?.v;
    if (i < this.prefix.length) {
      const d = this.prefix[i];
      if (d.e !== e) {
        this.unsupported.push("nondeterministic replay at decision " + i);
        if (process.env.SX_DEBUG) console.error("nondet", i, show(d.e), "vs", show(e), new Error().stack);
        this.aborted = true;
        throw new PathAbort("nondeterminism");
      }
      dir = d.dir;
    } else {
      dir = X.evalIn(e, this.model);
      if (i > 20000) {
        this.truncated = "too many decisions on one path";
        throw new PathAbort("decisions");
      }
    }
    if (process.env.SX_TRACE) {
      console.error(`#${i} ${dir} ${show(e).slice(0, 160)}`, new Error().stack.split("\n").slice(2, 9).map((l) => l.trim().replace(/file:\/\/\S*\/(packages|engine|harness)/, "$1")).join(" < "));
    }
    this.decisions.push({ e, dir, v, npc: this.pc.length });
    const c = dir ? e : X.not(e);
    this.pc.push(c);
    this.note(e, dir);
    this.learn(e, dir);
    return dir;
  }
}
function sameRanges(a, b) {
  return a.length === b.length && a.every((r, i) => r[0] === b[i][0] && r[1] === b[i][1]);
}
export function show(e) {
  if (!X.isNode(e)) return JSON.stringify(e);
  if (e.op === "k" || e.op === "v" || e.op === "bv") return String(e.args[0]);
  if (e.op === "in") return `${show(e.args[0])}∈${JSON.stringify(e.args[1])}`;
  return `(${e.op} ${e.args.map(show).join(" ")})`;
}

export function branch(e) {
  return P.branch(e);
}

/** Concretise an Int expression by forking over its feasible values. */
export function concInt(e) {
  if (X.isK(e)) return X.kval(e);
  P.concretised++;
  for (let n = 0;; n++) {
    if (n >= cfg.concretizeCap) {
      P.truncated = "concretisation cap: " + (new Error().stack.split("\n").slice(2, 8).join(" | "));
      throw new PathAbort("concretisation cap");
    }
    const i = P.pos;
    // replay the recorded value, if the next recorded decision is this one
    const d = i < P.prefix.length ? P.prefix[i] : undefined;
    const v = d?.v !== undefined && X.eq(e, X.konst(d.v)) === d.e ? d.v : X.evalIn(e, P.model);
    const c = X.eq(e, X.konst(v));
    if (c === X.TRUE) return v;
    if (c === X.FALSE) throw new Error("concInt");
    const k = P.lookup(c);
    if (k === true) return v;
    if (P.branch(c, { v })) return v;
  }
}

// ---------------------------------------------------------------- values
export class Sym {
  [Symbol.toPrimitive]() {
    const err = new Unsupported("symbolic value leaked into native code");
    P?.unsupported.push(err.stack.split("\n").slice(0, 8).join(" | "));
    throw err;
  }
}
export class SymBool extends Sym {
  constructor(e) {
    super();
    this.e = e;
  }
}
export class SymNum extends Sym {
  constructor(e, d = 1) {
    super();
    this.e = e;
    this.d = d;
  }
  toString(radix) {
    return numToStr(this, radix);
  }
  toLocaleString(loc, o) {
    if (this.d === 1 && o === undefined && (loc === "en" || loc === "en-US")) return grouped(this.e);
    return concretize(this).toLocaleString(loc, o);
  }
  toFixed(n) {
    return concretize(this).toFixed(n);
  }
  valueOf() {
    return this;
  }
}
export class SymBig extends Sym {
  constructor(e) {
    super();
    this.e = e;
  }
  toString(radix) {
    if (radix !== undefined && radix !== 10) return concretize(this).toString(radix);
    return intToStr(this.e);
  }
  toLocaleString(loc, o) {
    if (o === undefined && (loc === "en" || loc === "en-US")) return grouped(this.e);
    return concretize(this).toLocaleString(loc, o);
  }
  valueOf() {
    return this;
  }
}
/** an integer as English text, with a comma between thousands */
function grouped(e) {
  const cs = [...cuOf(intToStr(e))], out = [], neg = cs[0] === 45;
  for (let i = 0; i < cs.length; i++) {
    if (i > (neg ? 1 : 0) && (cs.length - i) % 3 === 0) out.push(44);
    out.push(cs[i]);
  }
  return mkStr(out);
}
export const mkBool = (e) => e === X.TRUE ? true : e === X.FALSE ? false : new SymBool(e);
export const bexpr = (b) => {
  if (b === true) return X.TRUE;
  if (b === false) return X.FALSE;
  if (b instanceof SymBool) return b.e;
  return X.bool(t(b));
};
export function mkNum(e, d = 1) {
  if (X.isK(e)) {
    const v = X.kval(e);
    return d === 1 ? Number(v) : Number(v) / d;
  }
  if (d === 1 && !(e.lo >= -9007199254740992 && e.hi <= 9007199254740992)) return roundInt(e);
  return new SymNum(e, d);
}
export const mkBig = (e) => X.isK(e) ? BigInt(X.kval(e)) : new SymBig(e);

/** IEEE-754 rounding (ties to even) of an integer-valued result. */
function roundInt(e) {
  const M = 9007199254740992n;
  if (branch(X.and(X.le(X.konst(-M), e), X.le(e, X.konst(M))))) return new SymNum(e);
  const negv = branch(X.lt(e, 0));
  const a = negv ? X.neg(e) : e;
  for (let k = 1; k <= 40; k++) {
    const top = M << BigInt(k);
    if (branch(X.le(a, X.konst(top)))) {
      const m = 1n << BigInt(k);
      const q = X.div(a, m), r = X.mod(a, m);
      const half = X.konst(m / 2n);
      const up = X.or(X.gt(r, half), X.and(X.eq(r, half), X.eq(X.mod(q, 2), 1)));
      const v = X.mul(X.add(q, X.ite(up, 1, 0)), X.konst(m));
      return new SymNum(negv ? X.neg(v) : v);
    }
  }
  const v = concInt(e);
  return Number(v);
}

// numeric view: {e,d} or a special concrete number
function numParts(x, other) {
  if (x instanceof SymNum) return x;
  if (typeof x === "number") {
    if (Number.isSafeInteger(x)) return { e: X.konst(x), d: 1 };
    if (!Number.isFinite(x)) return null;
    // a double that is the rounded quotient k/d the other side ranges over
    if (other instanceof SymNum && other.d > 1) {
      const k = Math.round(x * other.d);
      if (Number.isSafeInteger(k) && k / other.d === x) return { e: X.konst(k), d: other.d };
    }
    if (Number.isInteger(x)) return { e: X.konst(BigInt(x)), d: 1 };
    // shortest decimal representation (at most 17 significant digits)
    const m = /^(-?)(\d+)(?:\.(\d+))?(?:e([+-]\d+))?$/.exec(String(x));
    let digits = m[2] + (m[3] ?? "");
    let exp = (m[3] ?? "").length - Number(m[4] ?? 0);
    while (exp < 0) { digits += "0"; exp++; }
    if (exp > 22) return undefined;
    return { e: X.konst((m[1] ? -1n : 1n) * BigInt(digits)), d: 10 ** exp };
  }
  return undefined;
}

// ---------------------------------------------------------------- strings
const cuOf = (s) => {
  const r = new Array(s.length);
  for (let i = 0; i < s.length; i++) r[i] = s.charCodeAt(i);
  return r;
};
export function chars(s) {
  return s instanceof SymStr ? s.cs : cuOf(s);
}
export function mkStr(cs) {
  let all = true;
  for (let i = 0; i < cs.length; i++) {
    const c = cs[i];
    if (typeof c !== "number") {
      if (X.isK(c)) {
        if (all) cs = cs.slice();
        cs[i] = Number(X.kval(c));
      } else all = false;
    }
  }
  if (all) {
    let s = "";
    for (let i = 0; i < cs.length; i += 4096) s += String.fromCharCode(...cs.slice(i, i + 4096));
    return s;
  }
  return new SymStr(cs);
}
const clampIdx = (v, len, dflt) => {
  if (v === undefined) return dflt;
  v = Math.trunc(Number(concretize(v)));
  if (Number.isNaN(v)) v = 0;
  return v;
};
const WS = [[9, 13], [32, 32], [160, 160], [0x1680, 0x1680], [0x2000, 0x200a], [0x2028, 0x2029], [0x202f, 0x202f], [0x205f, 0x205f], [0x3000, 0x3000], [0xfeff, 0xfeff]];
const isHi = (c) => X.inSet(c, [[0xd800, 0xdbff]]);
const isLo = (c) => X.inSet(c, [[0xdc00, 0xdfff]]);

export function strEqExpr(a, b) {
  if (a.length !== b.length) return X.FALSE;
  const A = chars(a), B = chars(b), f = [];
  for (let i = 0; i < A.length; i++) {
    const q = X.eq(A[i], B[i]);
    if (q === X.FALSE) return X.FALSE;
    f.push(q);
  }
  return X.and(...f);
}
function matchAtExpr(A, i, B) {
  if (i + B.length > A.length || i < 0) return X.FALSE;
  const f = [];
  for (let q = 0; q < B.length; q++) {
    const z = X.eq(A[i + q], B[q]);
    if (z === X.FALSE) return X.FALSE;
    f.push(z);
  }
  return X.and(...f);
}
function strLtExpr(a, b) { // code-unit lexicographic a < b
  const A = chars(a), B = chars(b);
  let r = X.bool(A.length < B.length);
  for (let i = Math.min(A.length, B.length) - 1; i >= 0; i--) {
    r = X.or(X.lt(A[i], B[i]), X.and(X.eq(A[i], B[i]), r));
  }
  return r;
}
const toS = (x) => typeof x === "string" || x instanceof SymStr ? x : toStr(x);

let caseTabs = null;
function caseTables() {
  if (caseTabs) return caseTabs;
  const build = (fn) => {
    const byDelta = new Map(), special = [];
    for (let c = 128; c <= 65535; c++) {
      if (c >= 0xd800 && c <= 0xdfff) continue;
      const s = String.fromCharCode(c), r = fn(s);
      if (r === s) continue;
      if (r.length !== 1 || c === 0x3a3 && fn("Σ") !== "Σ") { special.push([c, c]); continue; }
      const d = r.charCodeAt(0) - c;
      if (!byDelta.has(d)) byDelta.set(d, []);
      byDelta.get(d).push([c, c]);
    }
    return { deltas: [...byDelta].map(([d, rs]) => [d, X.normRanges(rs)]), special: X.normRanges(special) };
  };
  return caseTabs = { lower: build((s) => s.toLowerCase()), upper: build((s) => s.toUpperCase()) };
}
function mapCase(cs, kind) {
  const out = [];
  for (const c of cs) {
    if (typeof c === "number") {
      const s = String.fromCharCode(c);
      for (const u of cuOf(kind === "lower" ? s.toLowerCase() : s.toUpperCase())) out.push(u);
      continue;
    }
    const ascii = kind === "lower"
      ? X.ite(X.inSet(c, [[65, 90]]), X.add(c, 32), c)
      : X.ite(X.inSet(c, [[97, 122]]), X.add(c, -32), c);
    if (c.hi < 128) { out.push(ascii); continue; }
    if (branch(X.le(c, 127))) { out.push(ascii); continue; }
    const tab = caseTables()[kind];
    if (branch(X.inSet(c, tab.special))) {
      const v = String.fromCharCode(Number(concInt(c)));
      for (const u of cuOf(kind === "lower" ? v.toLowerCase() : v.toUpperCase())) out.push(u);
      continue;
    }
    let e = c;
    for (const [d, rs] of tab.deltas) e = X.ite(X.inSet(c, rs), X.add(c, d), e);
    out.push(e);
  }
  return mkStr(out);
}

// The root collation (String.prototype.localeCompare) on printable ASCII:
// primary weights first, then lower case before upper case.
let ranks = null;
function rank(c) {
  if (!ranks) {
    const all = Array.from({ length: 95 }, (_, i) => String.fromCharCode(32 + i)).sort((x, y) => x.localeCompare(y));
    const of = [];
    let r = -1, prev;
    for (const ch of all) {
      const l = ch.toLowerCase();
      if (l !== prev) r++;
      of[ch.charCodeAt(0)] = r;
      prev = l;
    }
    // maximal runs of codes with ranks one apart
    const runs = [];
    for (let u = 32; u < 127; u++) {
      const last = runs[runs.length - 1];
      if (last && of[u] - u === last[2]) last[1] = u; else runs.push([u, u, of[u] - u]);
    }
    ranks = { of, runs };
  }
  if (typeof c === "number") return X.konst(ranks.of[c]);
  let e = null;
  for (const [lo, hi, d] of ranks.runs) {
    if (hi < c.lo || lo > c.hi) continue;
    const v = X.add(c, d);
    e = e === null ? v : X.ite(X.inSet(c, [[lo, hi]]), v, e);
  }
  return e;
}
function collatable(cs) {
  const out = [];
  for (const c of cs) {
    if (typeof c === "number") {
      if (c < 9 || c > 13 && c < 32) continue; // ignored by collation
      if (c < 32 || c > 126) return null;
    } else if ((c.lo < 32 || c.hi > 126) && !branch(X.inSet(c, [[32, 126]]))) return null;
    out.push(c);
  }
  return out;
}
function collateLt(a, b) {
  const n = Math.min(a.length, b.length);
  const E = (c) => typeof c === "number" ? X.konst(c) : c;
  // equal primary weights all along: the shorter one first, else the first difference in case
  let tail = X.FALSE;
  if (a.length < b.length) tail = X.TRUE;
  else if (a.length === b.length) for (let i = n - 1; i >= 0; i--) tail = X.ite(X.eq(E(a[i]), E(b[i])), tail, X.gt(E(a[i]), E(b[i])));
  let e = tail;
  for (let i = n - 1; i >= 0; i--) {
    const p = rank(a[i]), q = rank(b[i]);
    e = X.or(X.lt(p, q), X.and(X.eq(p, q), e));
  }
  return e;
}

export class SymStr extends Sym {
  constructor(cs) {
    super();
    this.cs = cs;
  }
  get length() {
    return this.cs.length;
  }
  toString() {
    return this;
  }
  valueOf() {
    return this;
  }
  charCodeAt(i) {
    i = clampIdx(i, 0, 0);
    if (i < 0 || i >= this.cs.length) return NaN;
    return mkNumC(this.cs[i]);
  }
  codePointAt(i) {
    i = clampIdx(i, 0, 0);
    if (i < 0 || i >= this.cs.length) return undefined;
    const c = this.cs[i];
    if (i + 1 < this.cs.length && branch(X.and(isHi(c), isLo(this.cs[i + 1])))) {
      const d = this.cs[i + 1];
      return mkNumC(X.add(X.add(X.mul(X.add(c, -0xd800), 1024), X.add(d, -0xdc00)), 0x10000));
    }
    return mkNumC(c);
  }
  charAt(i) {
    i = clampIdx(i, 0, 0);
    return i >= 0 && i < this.cs.length ? mkStr([this.cs[i]]) : "";
  }
  at(i) {
    i = clampIdx(i, 0, 0);
    if (i < 0) i += this.cs.length;
    return i >= 0 && i < this.cs.length ? mkStr([this.cs[i]]) : undefined;
  }
  slice(a, b) {
    const n = this.cs.length;
    a = clampIdx(a, n, 0);
    b = clampIdx(b, n, n);
    return mkStr(this.cs.slice(a, b));
  }
  substring(a, b) {
    const n = this.cs.length, cl = (v) => Math.max(0, Math.min(n, v));
    a = cl(clampIdx(a, n, 0));
    b = cl(clampIdx(b, n, n));
    return mkStr(this.cs.slice(Math.min(a, b), Math.max(a, b)));
  }
  substr(a, l) {
    const n = this.cs.length;
    a = clampIdx(a, n, 0);
    if (a < 0) a = Math.max(0, n + a);
    l = l === undefined ? n - a : clampIdx(l, n, 0);
    return mkStr(this.cs.slice(a, Math.max(a, a + l)));
  }
  concat(...xs) {
    return mkStr([...this.cs, ...xs.flatMap((x) => chars(toS(x)))]);
  }
  startsWith(s, pos) {
    return mkBool(matchAtExpr(this.cs, Math.max(0, clampIdx(pos, 0, 0)), chars(toS(s))));
  }
  endsWith(s, end) {
    const n = end === undefined ? this.cs.length : Math.min(this.cs.length, clampIdx(end, 0, 0));
    const B = chars(toS(s));
    return mkBool(matchAtExpr(this.cs.slice(0, n), n - B.length, B));
  }
  includes(s, pos) {
    const B = chars(toS(s)), f = [];
    for (let i = Math.max(0, clampIdx(pos, 0, 0)); i + B.length <= this.cs.length; i++) f.push(matchAtExpr(this.cs, i, B));
    return mkBool(X.or(...f));
  }
  indexOf(s, pos) {
    const B = chars(toS(s));
    for (let i = Math.max(0, clampIdx(pos, 0, 0)); i + B.length <= this.cs.length; i++) {
      if (branch(matchAtExpr(this.cs, i, B))) return i;
    }
    return -1;
  }
  lastIndexOf(s, pos) {
    const B = chars(toS(s));
    let st = this.cs.length - B.length;
    if (pos !== undefined) st = Math.min(st, Math.max(0, clampIdx(pos, 0, 0)));
    for (let i = st; i >= 0; i--) if (branch(matchAtExpr(this.cs, i, B))) return i;
    return -1;
  }
  toLowerCase() {
    return mapCase(this.cs, "lower");
  }
  toUpperCase() {
    return mapCase(this.cs, "upper");
  }
  toLocaleLowerCase() {
    return mapCase(this.cs, "lower");
  }
  toLocaleUpperCase() {
    return mapCase(this.cs, "upper");
  }
  trimStart() {
    let i = 0;
    while (i < this.cs.length && branch(X.inSet(this.cs[i], WS))) i++;
    return mkStr(this.cs.slice(i));
  }
  trimEnd() {
    let j = this.cs.length;
    while (j > 0 && branch(X.inSet(this.cs[j - 1], WS))) j--;
    return mkStr(this.cs.slice(0, j));
  }
  trim() {
    const s = this.trimStart();
    return s instanceof SymStr ? s.trimEnd() : s.trimEnd();
  }
  padStart(n, f = " ") {
    const k = clampIdx(n, 0, 0) - this.cs.length;
    if (k <= 0) return this;
    const F = chars(toS(f));
    if (F.length === 0) return this;
    return mkStr([...Array.from({ length: k }, (_, i) => F[i % F.length]), ...this.cs]);
  }
  padEnd(n, f = " ") {
    const k = clampIdx(n, 0, 0) - this.cs.length;
    if (k <= 0) return this;
    const F = chars(toS(f));
    if (F.length === 0) return this;
    return mkStr([...this.cs, ...Array.from({ length: k }, (_, i) => F[i % F.length])]);
  }
  repeat(n) {
    n = clampIdx(n, 0, 0);
    if (n < 0) throw new RangeError("Invalid count value");
    let out = [];
    for (let i = 0; i < n; i++) out = out.concat(this.cs);
    return mkStr(out);
  }
  split(sep, limit) {
    let out;
    if (sep === undefined) out = [this];
    else if (sep instanceof RegExp) out = regexSplit(sep, this);
    else {
      const B = chars(toS(sep));
      out = [];
      if (B.length === 0) out = this.cs.map((c) => mkStr([c]));
      else {
        let st = 0;
        for (let i = 0; i + B.length <= this.cs.length;) {
          if (branch(matchAtExpr(this.cs, i, B))) {
            out.push(mkStr(this.cs.slice(st, i)));
            i += B.length;
            st = i;
          } else i++;
        }
        out.push(mkStr(this.cs.slice(st)));
      }
    }
    return limit === undefined ? out : out.slice(0, limit);
  }
  replace(pat, rep) {
    return strReplace(this, pat, rep, false);
  }
  replaceAll(pat, rep) {
    return strReplace(this, pat, rep, true);
  }
  match(re) {
    if (!(re instanceof RegExp)) re = new RegExp(re);
    if (!re.global) return regexExec(re, this);
    const out = [];
    for (const m of allMatches(re, this)) out.push(m[0]);
    return out.length ? out : null;
  }
  matchAll(re) {
    return allMatches(re, this)[Symbol.iterator]();
  }
  search(re) {
    const m = execFrom(re, this, 0, false);
    return m ? m.index : -1;
  }
  normalize(f) {
    const cs = this.cs;
    for (const c of cs) {
      if (typeof c === "number" ? c > 127 : !branch(X.le(c, 127))) return concretize(this).normalize(f);
    }
    return this;
  }
  localeCompare(o, ...rest) {
    if (rest.length === 0 && (o instanceof SymStr || typeof o === "string")) {
      if (branch(strEqExpr(this, o))) return 0;
      const a = collatable(this.cs), b = a && collatable(chars(o));
      if (b) {
        if (branch(collateLt(a, b))) return -1;
        return branch(collateLt(b, a)) ? 1 : 0;
      }
    }
    return concretize(this).localeCompare(concretize(o), ...rest.map(concretize));
  }
  isWellFormed() {
    for (let i = 0; i < this.cs.length; i++) {
      const c = this.cs[i];
      if (branch(isHi(c))) {
        if (i + 1 >= this.cs.length || !branch(isLo(this.cs[i + 1]))) return false;
        i++;
      } else if (branch(isLo(c))) return false;
    }
    return true;
  }
  *[Symbol.iterator]() {
    for (let i = 0; i < this.cs.length; i++) {
      if (i + 1 < this.cs.length && branch(X.and(isHi(this.cs[i]), isLo(this.cs[i + 1])))) {
        yield mkStr([this.cs[i], this.cs[i + 1]]);
        i++;
      } else yield mkStr([this.cs[i]]);
    }
  }
}
// methods missing above behave as undefined properties
function mkNumC(c) {
  return typeof c === "number" ? c : mkNum(c);
}

// ---------------------------------------------------------------- regex
function mkMatch(r, c, s, i) {
  const cs = chars(s);
  const arr = r.caps.map((g) => g === undefined ? undefined : mkStr(cs.slice(g[0], g[1])));
  arr[0] = mkStr(cs.slice(i, r.end));
  arr.index = i;
  arr.input = s;
  if (c.names.size) {
    arr.groups = Object.create(null);
    for (const [n, k] of c.names) arr.groups[n] = arr[k];
  } else arr.groups = undefined;
  arr.end = undefined;
  delete arr.end;
  Object.defineProperty(arr, "$end", { value: r.end, enumerable: false });
  return arr;
}
function execFrom(re, s, from, sticky) {
  const c = R.compile(re), cs = chars(s);
  const back = R.hasBackref(c);
  if (!back && !branch(R.testFormula(c, cs, from, sticky))) return null;
  for (let i = from; i <= cs.length; i++) {
    if (!back && !sticky && !branch(R.matchAt(c, i, cs))) continue;
    const r = R.execAt(c, i, cs, branch);
    if (r) return mkMatch(r, c, s, i);
    if (sticky) break;
  }
  return null;
}
function regexExec(re, s) {
  const useLast = re.global || re.sticky;
  const from = useLast ? re.lastIndex : 0;
  if (from > s.length) {
    re.lastIndex = 0;
    return null;
  }
  const m = execFrom(re, s, from, re.sticky);
  if (useLast) re.lastIndex = m ? m.$end : 0;
  return m;
}
function regexTest(re, s) {
  if (re.global || re.sticky) return regexExec(re, s) !== null;
  const c = R.compile(re);
  if (R.hasBackref(c)) return regexExec(re, s) !== null;
  return mkBool(R.testFormula(c, chars(s)));
}
function allMatches(re, s) {
  const out = [];
  let i = 0;
  while (i <= s.length) {
    const m = execFrom(re, s, i, re.sticky);
    if (!m) break;
    out.push(m);
    i = m.$end > m.index ? m.$end : m.$end + 1;
  }
  return out;
}
function regexSplit(re, s) {
  const cs = chars(s), out = [];
  if (cs.length === 0) return regexTest(new RegExp(`^(?:${re.source})$`, re.flags), s) ? [] : [s];
  let p = 0, q = 0;
  const c = R.compile(re);
  while (q < cs.length) {
    if (!branch(R.matchAt(c, q, cs))) { q++; continue; }
    const r = R.execAt(c, q, cs, branch);
    const e = r.end;
    if (e === p) { q++; continue; }
    out.push(mkStr(cs.slice(p, q)));
    for (let g = 1; g < r.caps.length; g++) out.push(r.caps[g] && mkStr(cs.slice(...r.caps[g])));
    p = q = e;
  }
  out.push(mkStr(cs.slice(p)));
  return out;
}
function expandRep(rep, m, s) {
  if (typeof rep === "function") {
    const args = [...m, m.index, s];
    if (m.groups) args.push(m.groups);
    return toStr(rep(...args));
  }
  if (rep instanceof SymStr) rep = rep.cs.every((c) => typeof c === "number" ? c !== 36 : !branch(X.eq(c, 36))) ? rep : concretize(rep);
  if (rep instanceof SymStr || !rep.includes("$")) return rep;
  let out = [];
  const cs = chars(s);
  rep.replace(/\$(\$|&|`|'|\d{1,2}|<[^>]*>)|([^$]+|\$)/g, (all, k, lit) => {
    if (lit !== undefined) out.push(...cuOf(lit));
    else if (k === "$") out.push(36);
    else if (k === "&") out.push(...chars(m[0]));
    else if (k === "`") out.push(...cs.slice(0, m.index));
    else if (k === "'") out.push(...cs.slice(m.index + m[0].length));
    else if (k[0] === "<" && m.groups) out.push(...chars(m.groups[k.slice(1, -1)] ?? ""));
    else if (/^\d/.test(k) && Number(k) > 0 && Number(k) < m.length) out.push(...chars(m[Number(k)] ?? ""));
    else out.push(...cuOf(all));
    return "";
  });
  return mkStr(out);
}
function strReplace(s, pat, rep, all) {
  let ms;
  if (typeof rep !== "function") rep = toS(rep);
  if (pat instanceof RegExp) {
    ms = pat.global ? allMatches(pat, s) : [execFrom(pat, s, pat.sticky ? pat.lastIndex : 0, pat.sticky)].filter(Boolean);
  } else {
    const B = chars(toS(pat)), cs = chars(s);
    ms = [];
    for (let i = 0; i + B.length <= cs.length;) {
      if (branch(matchAtExpr(cs, i, B))) {
        const m = [mkStr(cs.slice(i, i + B.length))];
        m.index = i;
        m.$end = i + B.length;
        ms.push(m);
        if (!all) break;
        i += Math.max(1, B.length);
      } else i++;
    }
  }
  const cs = chars(s), out = [];
  let p = 0;
  for (const m of ms) {
    out.push(...cs.slice(p, m.index));
    out.push(...chars(expandRep(rep, m, s)));
    p = m.$end;
  }
  out.push(...cs.slice(p));
  return mkStr(out);
}

// ---------------------------------------------------------------- truthiness
export function t(c) {
  if (!(c instanceof Sym)) return !!c;
  if (c instanceof SymBool) return P.branch(c.e);
  if (c instanceof SymStr) return c.length > 0;
  return P.branch(X.ne(c.e, 0));
}
export function truthExpr(c) {
  if (!(c instanceof Sym)) return X.bool(!!c);
  if (c instanceof SymBool) return c.e;
  if (c instanceof SymStr) return X.bool(c.length > 0);
  return X.ne(c.e, 0);
}
export let l; // value of the last p() operand
export function p(a) {
  if (!(a instanceof Sym)) {
    l = a;
    return !!a;
  }
  const r = t(a);
  l = a instanceof SymBool ? r : a;
  return r;
}
export function not(a) {
  return a instanceof Sym ? mkBool(X.not(truthExpr(a))) : !a;
}
// non-forking && and || for side-effect-free right operands
export function andP(a, f) {
  if (!(a instanceof SymBool)) {
    if (a instanceof Sym) return t(a) ? f() : a;
    return a && f();
  }
  const k = P.lookup(a.e);
  if (k === true) return f();
  if (k === false) return false;
  const b = f();
  if (b instanceof SymBool || typeof b === "boolean") return mkBool(X.and(a.e, bexpr(b)));
  return t(a) ? b : false;
}
export function orP(a, f) {
  if (!(a instanceof SymBool)) {
    if (a instanceof Sym) return t(a) ? a : f();
    return a || f();
  }
  const k = P.lookup(a.e);
  if (k === true) return true;
  if (k === false) return f();
  const b = f();
  if (b instanceof SymBool || typeof b === "boolean") return mkBool(X.or(a.e, bexpr(b)));
  return t(a) ? true : b;
}
const isNumLike = (x) => typeof x === "number" && Number.isSafeInteger(x) || x instanceof SymNum && x.d === 1;
const isBoolLike = (x) => typeof x === "boolean" || x instanceof SymBool;
export function iteP(c, f, g) {
  if (!(c instanceof SymBool)) return t(c) ? f() : g();
  const k = P.lookup(c.e);
  if (k !== undefined) return k ? f() : g();
  const a = f(), b = g();
  if (isNumLike(a) && isNumLike(b)) return mkNum(X.ite(c.e, numParts(a).e, numParts(b).e));
  if (isBoolLike(a) && isBoolLike(b)) return mkBool(X.ite(c.e, bexpr(a), bexpr(b)));
  return t(c) ? a : b;
}

// ---------------------------------------------------------------- equality
export function eqExpr(a, b) {
  if (!(a instanceof Sym) && !(b instanceof Sym)) return X.bool(a === b);
  if (a === b) return X.TRUE;
  if (a instanceof SymStr || b instanceof SymStr) {
    return (typeof a === "string" || a instanceof SymStr) && (typeof b === "string" || b instanceof SymStr)
      ? strEqExpr(a, b)
      : X.FALSE;
  }
  if (a instanceof SymBool || b instanceof SymBool) {
    return isBoolLike(a) && isBoolLike(b) ? X.iff(bexpr(a), bexpr(b)) : X.FALSE;
  }
  if (a instanceof SymBig || b instanceof SymBig) {
    const f = (x) => typeof x === "bigint" ? X.konst(x) : x instanceof SymBig ? x.e : null;
    const A = f(a), B = f(b);
    return A && B ? X.eq(A, B) : X.FALSE;
  }
  const A = numParts(a, b), B = numParts(b, a);
  if (!A || !B) return X.FALSE;
  return X.eq(X.mul(A.e, X.konst(BigInt(B.d))), X.mul(B.e, X.konst(BigInt(A.d))));
}
export function eq(a, b) {
  if (!(a instanceof Sym) && !(b instanceof Sym)) return a === b;
  return mkBool(eqExpr(a, b));
}
export function ne(a, b) {
  if (!(a instanceof Sym) && !(b instanceof Sym)) return a !== b;
  return mkBool(X.not(eqExpr(a, b)));
}
export function leq(a, b) { // loose ==
  if (!(a instanceof Sym) && !(b instanceof Sym)) return a == b;
  if (a == null || b == null) return false;
  const ta = typeOf(a), tb = typeOf(b);
  if (ta === tb) return eq(a, b);
  const n = (x, tx) => tx === "number" ? x : tx === "bigint" ? x : toNumber(x);
  if (ta === "bigint" || tb === "bigint") return cmp("==", a, b);
  return eq(n(a, ta), n(b, tb));
}
export const lne = (a, b) => not(leq(a, b));

export function typeOf(x) {
  if (!(x instanceof Sym)) return typeof x;
  if (x instanceof SymStr) return "string";
  if (x instanceof SymNum) return "number";
  if (x instanceof SymBool) return "boolean";
  return "bigint";
}
export { typeOf as ty };

// ---------------------------------------------------------------- arithmetic
function prim(x) {
  if (x instanceof Sym || typeof x !== "object" && typeof x !== "function" || x === null) return x;
  const tp = x[Symbol.toPrimitive];
  if (tp) return tp.call(x, "default");
  const v = x.valueOf();
  if (v instanceof Sym || typeof v !== "object") return v;
  return x.toString();
}
export function toNumber(x) {
  if (x instanceof SymNum) return x;
  if (x instanceof SymStr) return strToNum(x);
  if (x instanceof SymBool) return mkNum(X.ite(x.e, 1, 0));
  if (x instanceof SymBig) throw new TypeError("Cannot convert a BigInt value to a number");
  return +x;
}
const isStr = (x) => typeof x === "string" || x instanceof SymStr;
export function add(a, b) {
  if (!(a instanceof Sym) && !(b instanceof Sym)) {
    if (typeof a === "object" && a !== null || typeof b === "object" && b !== null) {
      a = prim(a);
      b = prim(b);
      if (a instanceof Sym || b instanceof Sym) return add(a, b);
    }
    return a + b;
  }
  a = prim(a);
  b = prim(b);
  if (isStr(a) || isStr(b)) return mkStr([...chars(toS(a)), ...chars(toS(b))]);
  return arith("+", a, b);
}
export function arith(op, a, b) {
  if (!(a instanceof Sym) && !(b instanceof Sym)) return nativeArith(op, a, b);
  const ta = typeOf(a), tb = typeOf(b);
  if (ta === "bigint" || tb === "bigint") {
    if (ta !== tb) throw new TypeError("Cannot mix BigInt and other types");
    return bigArith(op, a instanceof SymBig ? a.e : X.konst(a), b instanceof SymBig ? b.e : X.konst(b));
  }
  a = toNumber(a);
  b = toNumber(b);
  if (!(a instanceof Sym) && !(b instanceof Sym)) return nativeArith(op, a, b);
  const A = numParts(a), B = numParts(b);
  if (A && B && A.d === 1 && B.d === 1) {
    const x = A.e, y = B.e;
    switch (op) {
      case "+": return mkNum(X.add(x, y));
      case "-": return mkNum(X.sub(x, y));
      case "*": {
        if (!X.isK(x) && !X.isK(y)) {
          // keep products linear: concretise the operand with the smaller range
          return nativeOrSym("*", x.hi - x.lo <= y.hi - y.lo ? [numK(concInt(x)), b] : [a, numK(concInt(y))]);
        }
        const r = X.mul(x, y);
        if ((x.lo < 0 || y.lo < 0) && r.lo <= 0 && r.hi >= 0 && branch(X.eq(r, 0))) {
          const sx = X.isK(x) ? (Object.is(a, -0) || X.kval(x) < 0) : branch(X.lt(x, 0));
          const sy = X.isK(y) ? (Object.is(b, -0) || X.kval(y) < 0) : branch(X.lt(y, 0));
          return sx !== sy ? -0 : 0;
        }
        return mkNum(r);
      }
      case "/":
        if (X.isK(y) && Number.isSafeInteger(X.kval(y)) && X.kval(y) !== 0 && Math.abs(X.kval(y)) < 2 ** 40) {
          const k = X.kval(y);
          if (k < 0) return arith("/", neg(a), -k);
          if (Object.is(k, 1)) return a;
          if (Math.max(Math.abs(x.lo), Math.abs(x.hi)) * k < 2 ** 52) {
            if (branch(X.eq(X.mod(x, k), 0))) return mkNum(X.div(x, k));
            return new SymNum(x, k);
          }
        }
        break;
      case "%":
        if (X.isK(y) && X.kval(y) !== 0) {
          const k = Math.abs(Number(X.kval(y)));
          if (x.lo >= 0 || branch(X.ge(x, 0))) return mkNum(X.mod(x, k));
          const r = X.mod(X.neg(x), k);
          if (branch(X.eq(r, 0))) return -0;
          return mkNum(X.neg(r));
        }
        break;
      case "&": case "|": case "^": case "<<": case ">>": case ">>>":
        return bitop(op, x, y);
      case "**":
        if (X.isK(x)) return nativeOrSym(op, [a, numK(concInt(y))]);
        break;
    }
  }
  if (op === "-" && A && B && A.d === B.d && b === a) return 0;
  return nativeOrSym(op, [concretize(a), concretize(b)]);
}
const numK = (v) => Number(v);
const nativeOrSym = (op, [a, b]) => arith(op, a, b);
function nativeArith(op, a, b) {
  switch (op) {
    case "+": return a + b;
    case "-": return a - b;
    case "*": return a * b;
    case "/": return a / b;
    case "%": return a % b;
    case "**": return a ** b;
    case "&": return a & b;
    case "|": return a | b;
    case "^": return a ^ b;
    case "<<": return a << b;
    case ">>": return a >> b;
    case ">>>": return a >>> b;
  }
}
function bigArith(op, x, y) {
  switch (op) {
    case "+": return mkBig(X.add(x, y));
    case "-": return mkBig(X.sub(x, y));
    case "*": {
      if (!X.isK(x) && !X.isK(y)) return mkBig(X.mul(X.konst(concInt(x)), y));
      return mkBig(X.mul(x, y));
    }
    case "/": case "%": {
      const k = BigInt(concInt(y));
      if (k === 0n) throw new RangeError("Division by zero");
      const ka = k < 0n ? -k : k;
      const nonneg = x.lo >= 0 || branch(X.ge(x, 0));
      const ax = nonneg ? x : X.neg(x);
      if (op === "%") {
        const r = X.mod(ax, ka);
        return mkBig(nonneg ? r : X.neg(r));
      }
      const q = X.div(ax, ka);
      return mkBig(nonneg === (k > 0n) ? q : X.neg(q));
    }
    case "**": {
      const b = BigInt(concInt(y));
      return mkBig(X.konst(BigInt(concInt(x)) ** b));
    }
    default: {
      const a = BigInt(concInt(x)), b = BigInt(concInt(y));
      switch (op) {
        case "&": return a & b;
        case "|": return a | b;
        case "^": return a ^ b;
        case "<<": return a << b;
        case ">>": return a >> b;
      }
    }
  }
  throw new Unsupported("bigint " + op);
}
function toI32(e) {
  if (e.lo >= -2147483648 && e.hi <= 2147483647) return e;
  const u = X.mod(e, 4294967296);
  return X.ite(X.le(u, 2147483647), u, X.add(u, -4294967296));
}
function toU32(e) {
  return e.lo >= 0 && e.hi <= 4294967295 ? e : X.mod(e, 4294967296);
}
function bitop(op, x, y) {
  if (op === "<<" || op === ">>" || op === ">>>") {
    const s = Number(concInt(y)) & 31;
    if (op === "<<") return mkNum(toI32(X.mul(toI32(x), 2 ** s)));
    if (op === ">>") return mkNum(X.div(toI32(x), 2 ** s));
    return mkNum(X.div(toU32(x), 2 ** s));
  }
  if (X.isK(x)) [x, y] = [y, x];
  if (X.isK(y)) {
    const m = Number(X.kval(y)) >>> 0;
    const u = toU32(x);
    let acc = X.konst(0);
    for (let i = 0; i < 32;) {
      if (!((m >>> i) & 1)) { i++; continue; }
      let j = i;
      while (j < 32 && (m >>> j) & 1) j++;
      acc = X.add(acc, X.mul(X.mod(X.div(u, 2 ** i), 2 ** (j - i)), 2 ** i));
      i = j;
    }
    const andv = acc; // u & m (as unsigned)
    if (op === "&") return mkNum(toI32(andv));
    if (op === "|") return mkNum(toI32(X.sub(X.add(u, m), andv)));
    return mkNum(toI32(X.sub(X.add(u, m), X.mul(andv, 2))));
  }
  if (op === "|") {
    // disjoint bits: one operand a multiple of 2^k, the other below 2^k
    for (const [a, b] of [[x, y], [y, x]]) {
      const tz = trailingZeros(a);
      if (tz > 0 && a.lo >= 0 && branch(X.and(X.ge(b, 0), X.lt(b, 2 ** tz)))) return mkNum(toI32(X.add(a, b)));
    }
  }
  return bitop(op, x, X.konst(concInt(y)));
}
function trailingZeros(e) {
  if (X.isK(e)) {
    const v = BigInt(X.kval(e));
    if (v === 0n) return 53;
    let n = 0;
    while (!((v >> BigInt(n)) & 1n)) n++;
    return n;
  }
  const t = X.valuesOf(e);
  if (t?.every((v) => typeof v === "number")) {
    let n = 53;
    for (const v of t) while (n > 0 && v % 2 ** n !== 0) n--;
    return n;
  }
  if (e.op === "*") return trailingZeros(e.args[0]) + trailingZeros(e.args[1]);
  if (e.op === "+") return Math.min(...e.args.map(trailingZeros));
  if (e.op === "ite") return Math.min(trailingZeros(e.args[1]), trailingZeros(e.args[2]));
  return 0;
}
export function neg(a) {
  if (!(a instanceof Sym)) return -a;
  if (a instanceof SymBig) return mkBig(X.neg(a.e));
  a = toNumber(a);
  if (!(a instanceof Sym)) return -a;
  if (a.e.lo <= 0 && a.e.hi >= 0 && branch(X.eq(a.e, 0))) return -0;
  return new SymNum(X.neg(a.e), a.d);
}
export const plus = (a) => a instanceof Sym ? toNumber(a) : +a;
export function bnot(a) {
  if (!(a instanceof Sym)) return ~a;
  if (a instanceof SymBig) return mkBig(X.add(X.neg(a.e), -1));
  return bitop("^", numParts(toNumber(a)).e, X.konst(-1));
}
export const inc = (a) => a instanceof SymBig ? mkBig(X.add(a.e, 1)) : a instanceof Sym ? arith("+", toNumber(a), 1) : (typeof a === "bigint" ? a + 1n : +a + 1);
export const dec = (a) => a instanceof SymBig ? mkBig(X.add(a.e, -1)) : a instanceof Sym ? arith("-", toNumber(a), 1) : (typeof a === "bigint" ? a - 1n : +a - 1);

export function cmp(op, a, b) {
  if (!(a instanceof Sym) && !(b instanceof Sym)) {
    if (typeof a === "object" || typeof b === "object") {
      const pa = prim(a), pb = prim(b);
      if (pa instanceof Sym || pb instanceof Sym) return cmp(op, pa, pb);
    }
    switch (op) {
      case "<": return a < b;
      case "<=": return a <= b;
      case ">": return a > b;
      case ">=": return a >= b;
      case "==": return a == b;
    }
  }
  a = prim(a);
  b = prim(b);
  if (isStr(a) && isStr(b)) {
    switch (op) {
      case "<": return mkBool(strLtExpr(a, b));
      case ">": return mkBool(strLtExpr(b, a));
      case "<=": return mkBool(X.not(strLtExpr(b, a)));
      case ">=": return mkBool(X.not(strLtExpr(a, b)));
    }
  }
  const view = (x) => {
    if (x instanceof SymBig) return { e: x.e, d: 1 };
    if (typeof x === "bigint") return { e: X.konst(x), d: 1 };
    return x;
  };
  let A = view(a), B = view(b);
  if (!(A && A.e && !(A instanceof Sym))) A = toNumber(a);
  if (!(B && B.e && !(B instanceof Sym))) B = toNumber(b);
  if (typeof A === "number" && typeof B === "number") return cmp(op, A, B);
  const special = (n) => typeof n === "number" && !Number.isFinite(n);
  if (special(A) || special(B)) {
    // finite vs NaN / infinity
    return cmp(op, special(A) ? A : 0, special(B) ? B : 0);
  }
  const pa = A.e ? A : numParts(A, B), pb = B.e ? B : numParts(B, A);
  if (!pa || !pb) return cmp(op, concretize(a), concretize(b));
  const x = X.mul(pa.e, X.konst(BigInt(pb.d))), y = X.mul(pb.e, X.konst(BigInt(pa.d)));
  switch (op) {
    case "<": return mkBool(X.lt(x, y));
    case "<=": return mkBool(X.le(x, y));
    case ">": return mkBool(X.gt(x, y));
    case ">=": return mkBool(X.ge(x, y));
    case "==": return mkBool(X.eq(x, y));
  }
}
export const lt = (a, b) => typeof a === "number" && typeof b === "number" ? a < b : cmp("<", a, b);
export const le = (a, b) => typeof a === "number" && typeof b === "number" ? a <= b : cmp("<=", a, b);
export const gt = (a, b) => typeof a === "number" && typeof b === "number" ? a > b : cmp(">", a, b);
export const ge = (a, b) => typeof a === "number" && typeof b === "number" ? a >= b : cmp(">=", a, b);

// ---------------------------------------------------------------- conversions
const DIGITS = [[48, 57]];
/** Decimal digits of an integer expression as a string (forks on sign, count). */
export function intToStr(e, prefix = "") {
  if (X.isK(e)) return prefix + String(X.kval(e));
  if (e.lo < 0 && branch(X.lt(e, 0))) return add(prefix + "-", intToStr(X.neg(e)));
  const digs = [];
  let n = 1;
  for (let bound = 10n; n < 40; n++, bound *= 10n) {
    if (branch(X.lt(e, X.konst(bound)))) break;
  }
  // e = sum d_i 10^i with fresh digits (conservative extension of the path)
  const ev = X.evalIn(e, P.model);
  let evs = BigInt(ev);
  let sum = X.konst(0), pw = 1n;
  for (let i = 0; i < n; i++) {
    const name = `dig!${e.id}!${n}!${i}`;
    const d = X.ivar(name, 0, 9);
    P.model.set(name, Number(evs % 10n));
    evs /= 10n;
    sum = X.add(sum, X.mul(d, X.konst(pw)));
    pw *= 10n;
    digs.unshift(d);
  }
  const def = X.eq(e, sum);
  if (def !== X.TRUE && P.lookup(def) !== true) P.addFact(def);
  return mkStr([...cuOf(prefix), ...digs.map((d) => X.add(d, 48))]);
}
function numToStr(x, radix) {
  if (radix !== undefined && radix !== 10) {
    radix = concretize(radix);
    if (radix === 16 && x.d === 1) {
      const e = x.e;
      if (e.lo < 0 && branch(X.lt(e, 0))) return add("-", numToStr(mkNum(X.neg(e)), 16));
      let n = 1;
      for (; n < 14; n++) if (branch(X.lt(e, 16 ** n))) break;
      const out = [];
      for (let i = n - 1; i >= 0; i--) {
        const d = X.mod(X.div(e, 16 ** i), 16);
        out.push(X.ite(X.le(d, 9), X.add(d, 48), X.add(d, 87)));
      }
      return mkStr(out);
    }
    return concretize(x).toString(radix);
  }
  if (x.d === 1) {
    if (x.e.hi > 1e20 || x.e.lo < -1e20) return String(concretize(x));
    return intToStr(x.e);
  }
  // decimal fraction: canonical form when d is a power of ten
  let k = Math.round(Math.log10(x.d));
  if (10 ** k !== x.d || k > 6) return String(concretize(x));
  if (branch(X.eq(X.mod(x.e, x.d), 0))) return intToStr(X.div(x.e, x.d));
  let e = x.e;
  const negv = e.lo < 0 && branch(X.lt(e, 0));
  if (negv) e = X.neg(e);
  while (k > 1 && branch(X.eq(X.mod(e, 10), 0))) {
    e = X.div(e, 10);
    k--;
  }
  const ip = intToStr(X.div(e, 10 ** k));
  const fr = [];
  for (let i = k - 1; i >= 0; i--) fr.push(X.add(X.mod(X.div(e, 10 ** i), 10), 48));
  return mkStr([...(negv ? [45] : []), ...chars(ip), 46, ...fr]);
}
export function toStr(x) {
  if (typeof x === "string" || x instanceof SymStr) return x;
  if (x instanceof SymNum) return numToStr(x);
  if (x instanceof SymBig) return intToStr(x.e);
  if (x instanceof SymBool) return t(x) ? "true" : "false";
  if (Array.isArray(x)) return M.join(x, []);
  if (x !== null && typeof x === "object") {
    const tp = x[Symbol.toPrimitive];
    if (tp) return toStr(tp.call(x, "string"));
    if (x instanceof Error && (x.message instanceof Sym)) return add(x.name + ": ", x.message);
    if (typeof x.toString === "function") return toStr(m(x, "toString"));
  }
  return `${x}`;
}
export function tpl(strs, vals) {
  let any = false;
  for (const v of vals) if (v instanceof Sym || typeof v === "object" && v !== null) any = true;
  if (!any) {
    let s = strs[0];
    for (let i = 0; i < vals.length; i++) s += `${vals[i]}` + strs[i + 1];
    return s;
  }
  const out = cuOf(strs[0]);
  for (let i = 0; i < vals.length; i++) {
    for (const c of chars(toStr(vals[i]))) out.push(c);
    for (const c of cuOf(strs[i + 1])) out.push(c);
  }
  return mkStr(out);
}
const digitsVal = (cs) => {
  let e = X.konst(0);
  for (const c of cs) e = X.add(X.mul(e, 10), X.add(typeof c === "number" ? X.konst(c) : c, -48));
  return e;
};
const hexVal = (cs) => {
  let e = X.konst(0);
  for (const c0 of cs) {
    const c = X.toExpr(c0);
    const d = X.ite(X.inSet(c, [[48, 57]]), X.add(c, -48), X.ite(X.inSet(c, [[97, 102]]), X.add(c, -87), X.add(c, -55)));
    e = X.add(X.mul(e, 16), d);
  }
  return e;
};
function rtest(src, s, flags = "") {
  return t(regexTest(new RegExp(src, flags), s));
}
export function strToNum(s) {
  s = s.trim();
  if (!(s instanceof SymStr)) return Number(s);
  if (rtest("^[+-]?\\d+$", s)) {
    const cs = s.cs;
    let sign = 0, st = 0;
    if (branch(X.inSet(cs[0], [[43, 43], [45, 45]]))) {
      sign = branch(X.eq(cs[0], 45)) ? -1 : 1;
      st = 1;
    }
    const e = digitsVal(cs.slice(st));
    if (sign === -1) {
      if (branch(X.eq(e, 0))) return -0;
      return mkNum(X.neg(e));
    }
    return mkNum(e);
  }
  if (rtest("^[+-]?(?:\\d+\\.\\d*|\\.\\d+)$", s)) {
    let cs = s.cs, negv = false;
    if (branch(X.inSet(cs[0], [[43, 43], [45, 45]]))) {
      negv = branch(X.eq(cs[0], 45));
      cs = cs.slice(1);
    }
    let dot = 0;
    while (!branch(X.eq(cs[dot], 46))) dot++;
    const ip = cs.slice(0, dot), fp = cs.slice(dot + 1);
    const e = digitsVal([...ip, ...fp]);
    if (ip.length + fp.length > 15) return Number(concretize(s));
    if (negv && branch(X.eq(e, 0))) return -0;
    const v = negv ? X.neg(e) : e;
    if (fp.length === 0) return mkNum(v);
    const d = 10 ** fp.length;
    if (branch(X.eq(X.mod(v, d), 0))) return mkNum(X.div(v, d));
    return new SymNum(v, d);
  }
  if (rtest("^[+-]?(?:\\d+\\.?\\d*|\\.\\d+)e[+-]?\\d+$", s, "i")) {
    const cs = s.cs;
    let ei = 0;
    while (!branch(X.inSet(cs[ei], [[69, 69], [101, 101]]))) ei++;
    const mant = toNumber(mkStr(cs.slice(0, ei)));
    const ex = Number(concretize(toNumber(mkStr(cs.slice(ei + 1)))));
    if (mant instanceof SymNum && mant.d === 1 && ex >= 0 && ex <= 15) return mkNum(X.mul(mant.e, 10 ** ex));
    if (mant instanceof SymNum && mant.d === 1 && ex < 0 && ex >= -6 && mant.e.hi < 1e9 && mant.e.lo > -1e9) {
      const d = 10 ** -ex;
      if (branch(X.eq(X.mod(mant.e, d), 0))) return mkNum(X.div(mant.e, d));
      return new SymNum(mant.e, d);
    }
    return Number(String(concretize(mkStr(cs.slice(0, ei)))) + "e" + ex);
  }
  if (rtest("^0x[0-9a-f]+$", s, "i")) return mkNum(hexVal(s.cs.slice(2)));
  if (rtest("^0[ob][0-9]+$", s, "i")) return Number(concretize(s));
  if (s.length === 8 || s.length === 9) {
    if (rtest("^[+-]?Infinity$", s)) return Number(concretize(s));
  }
  return NaN;
}
function strToBig(s) {
  s = s.trim();
  if (!(s instanceof SymStr)) return BigInt(s);
  if (rtest("^[+-]?\\d+$", s)) {
    const cs = s.cs;
    let negv = false, st = 0;
    if (branch(X.inSet(cs[0], [[43, 43], [45, 45]]))) {
      negv = branch(X.eq(cs[0], 45));
      st = 1;
    }
    const e = digitsVal(cs.slice(st));
    return mkBig(negv ? X.neg(e) : e);
  }
  if (rtest("^0x[0-9a-f]+$", s, "i")) return mkBig(hexVal(s.cs.slice(2)));
  if (rtest("^0(?:b[01]+|o[0-7]+)$", s, "i")) return BigInt(concretize(s));
  throw new SyntaxError("Cannot convert to a BigInt");
}
function symParseInt(s, radix) {
  s = toS(s);
  if (!(s instanceof SymStr)) return parseInt(s, concretize(radix));
  s = s.trimStart();
  if (!(s instanceof SymStr)) return parseInt(s, concretize(radix));
  radix = radix === undefined ? 0 : Number(concretize(radix));
  let cs = s.cs, negv = false;
  if (cs.length && branch(X.inSet(cs[0], [[43, 43], [45, 45]]))) {
    negv = branch(X.eq(cs[0], 45));
    cs = cs.slice(1);
  }
  if ((radix === 0 || radix === 16) && cs.length >= 2 && branch(X.and(X.eq(cs[0], 48), X.inSet(cs[1], [[88, 88], [120, 120]])))) {
    radix = 16;
    cs = cs.slice(2);
  }
  if (radix === 0) radix = 10;
  if (radix !== 10 && radix !== 16) return parseInt(concretize(mkStr([...(negv ? [45] : []), ...cs])), radix);
  const set = radix === 10 ? DIGITS : [[48, 57], [65, 70], [97, 102]];
  let n = 0;
  while (n < cs.length && branch(X.inSet(cs[n], set))) n++;
  if (n === 0) return NaN;
  const e = radix === 10 ? digitsVal(cs.slice(0, n)) : hexVal(cs.slice(0, n));
  if (negv) {
    if (branch(X.eq(e, 0))) return -0;
    return mkNum(X.neg(e));
  }
  return mkNum(e);
}
function symParseFloat(s) {
  s = toS(s).trimStart();
  if (!(s instanceof SymStr)) return parseFloat(s);
  const mm = s.match(/^[+-]?(?:Infinity|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)/);
  return mm ? toNumber(mm[0]) : NaN;
}

// ---------------------------------------------------------------- concretisation
export function concretize(x) {
  if (!(x instanceof Sym)) return x;
  if (x instanceof SymBool) return t(x);
  if (x instanceof SymNum) {
    const v = concInt(x.e);
    return Number(v) / x.d;
  }
  if (x instanceof SymBig) return BigInt(concInt(x.e));
  return String.fromCharCode(...x.cs.map((c) => typeof c === "number" ? c : Number(concInt(c))));
}
export function deepHasSym(x, depth = 4) {
  if (x instanceof Sym) return true;
  if (depth === 0 || x === null || typeof x !== "object") return false;
  if (Array.isArray(x)) return x.some((y) => deepHasSym(y, depth - 1));
  if (x instanceof Map || x instanceof Set) return false;
  const pr = Object.getPrototypeOf(x);
  if (pr === Object.prototype || pr === null) {
    if (symProps.get(x)?.length) return true;
    for (const k of Object.keys(x)) {
      const d = Object.getOwnPropertyDescriptor(x, k);
      if ("value" in d && deepHasSym(d.value, depth - 1)) return true;
    }
  }
  return false;
}
export function deepConcretize(x, depth = 4) {
  if (x instanceof Sym) return concretize(x);
  if (depth === 0 || x === null || typeof x !== "object" || !deepHasSym(x, depth)) return x;
  if (Array.isArray(x)) return x.map((y) => deepConcretize(y, depth - 1));
  const o = Object.create(Object.getPrototypeOf(x));
  for (const k of Object.keys(x)) o[k] = deepConcretize(x[k], depth - 1);
  for (const [k, v] of symProps.get(x) ?? []) o[concretize(k)] = deepConcretize(v, depth - 1);
  return o;
}

// ---------------------------------------------------------------- property access
const symProps = new WeakMap(); // object -> [[SymStr, value]]
export function idx(o, k) {
  if (o instanceof SymStr) {
    if (k instanceof SymNum) k = concretize(k);
    if (typeof k === "number") return k >= 0 && k < o.cs.length && Number.isInteger(k) ? mkStr([o.cs[k]]) : undefined;
    if (k instanceof SymStr) k = concretize(k);
    if (typeof k === "string" && /^(0|[1-9]\d*)$/.test(k)) return idx(o, Number(k));
    return o[k];
  }
  if (!(k instanceof Sym)) {
    if (typeof k === "object" && k !== null) {
      k = prim(k);
      if (k instanceof Sym) return idx(o, k);
    }
    const r = o[k];
    if (r === undefined && typeof k === "string" && typeof o === "object") {
      const sp = symProps.get(o);
      if (sp) for (const [sk, v] of sp) if (t(eq(sk, k))) return v;
    }
    return r;
  }
  if (o === null || o === undefined) throw new TypeError("Cannot read properties of " + o);
  if (k instanceof SymNum) {
    if (Array.isArray(o)) {
      // outside the array bounds -> undefined
      if (k.d !== 1) return undefined;
      if (!branch(X.and(X.ge(k.e, 0), X.lt(k.e, o.length)))) return undefined;
      for (let i = 0; i < o.length - 1; i++) if (branch(X.eq(k.e, i))) return o[i];
      return o[o.length - 1];
    }
    if (typeof o === "string") {
      if (!branch(X.and(X.ge(k.e, 0), X.lt(k.e, o.length)))) return undefined;
      return mkStr([o.split("").map((c, i) => [c.charCodeAt(0), i]).reduceRight((acc, [c, i]) => acc === null ? X.konst(c) : X.ite(X.eq(k.e, i), c, acc), null)]);
    }
    return o[concretize(k)];
  }
  const key = resolveKey(o, toS(k));
  return key === undefined ? undefined : (key instanceof Array ? key[1] : o[key]);
}
/** Which property name (own or inherited) does symbolic string k denote? */
function resolveKey(o, k, ownOnly = false) {
  const sp = symProps.get(o);
  if (sp) for (const ent of sp) if (t(eq(ent[0], k))) return ent;
  const seen = new Set();
  const cands = [];
  for (let q = Object(o); q; q = Object.getPrototypeOf(q)) {
    for (const n of Object.getOwnPropertyNames(q)) {
      if (n.length === k.length && !seen.has(n)) { seen.add(n); cands.push(n); }
    }
    if (ownOnly) break;
  }
  const fs = cands.map((n) => strEqExpr(k, n)).map((f, i) => [f, cands[i]]).filter(([f]) => f !== X.FALSE);
  if (fs.length > 1 && !branch(X.or(...fs.map(([f]) => f)))) return undefined;
  for (const [f, n] of fs) if (branch(f)) return n;
  return undefined;
}
export function setidx(o, k, v) {
  if (k instanceof SymNum) k = concretize(k);
  if (k instanceof Sym) {
    const key = resolveKey(o, toS(k));
    if (key === undefined) {
      let sp = symProps.get(o);
      if (!sp) symProps.set(o, sp = []);
      sp.push([k, v]);
      return v;
    }
    if (key instanceof Array) return key[1] = v;
    return o[key] = v;
  }
  return o[k] = v;
}
export const symPropsOf = (o) => symProps.get(o) ?? [];
export function has(k, o) {
  if (!(k instanceof Sym)) return k in o;
  return resolveKey(o, toS(k)) !== undefined;
}
export function iter(x) {
  return x;
}
export function sw(x, cases) {
  if (!(x instanceof Sym)) {
    let allC = true;
    for (const c of cases) {
      const v = c();
      if (v instanceof Sym) {
        if (t(eq(x, v))) return v;
        allC = false;
      } else if (v === x) return x;
    }
    return allC ? x : Symbol();
  }
  for (const c of cases) {
    const v = c();
    if (t(eq(x, v))) return v;
  }
  return Symbol();
}

// ---------------------------------------------------------------- calls
const nativeCache = new WeakMap();
const fnToString = Function.prototype.toString;
function isNative(f) {
  let r = nativeCache.get(f);
  if (r === undefined) {
    r = typeof f === "function" && /\{\s*\[native code\]\s*\}\s*$/.test(fnToString.call(f));
    nativeCache.set(f, r);
  }
  return r;
}
export const FOREIGN = new WeakSet();
export function foreign(ns, depth = 5, seen = new Set()) {
  // register functions reachable from a module that is not instrumented
  if (ns === null || (typeof ns !== "object" && typeof ns !== "function") || seen.has(ns) || depth < 0) return ns;
  seen.add(ns);
  if (typeof ns === "function") FOREIGN.add(ns);
  let props;
  try {
    props = Object.getOwnPropertyDescriptors(ns);
  } catch {
    return ns;
  }
  for (const k of Reflect.ownKeys(props)) {
    const d = props[k];
    if ("value" in d) foreign(d.value, depth - 1, seen);
    else {
      if (d.get) FOREIGN.add(d.get);
      if (d.set) FOREIGN.add(d.set);
    }
  }
  return ns;
}
const SAFE = new WeakSet();
const MODELS = new Map();
export { MODELS, SAFE };
const hasSymArg = (args) => {
  for (let i = 0; i < args.length; i++) if (args[i] instanceof Sym) return true;
  return false;
};
export function invoke(f, self, args) {
  const model = MODELS.get(f);
  if (model !== undefined) return model(self, args, f);
  if (typeof f === "function" && (isNative(f) || FOREIGN.has(f)) && !SAFE.has(f) && f.name !== "") {
    if (self instanceof Sym || args.some((a) => deepHasSym(a)) || deepHasSym(self)) {
      if (process.env.SX_TRACE) console.error("concretising call to", f.name, new Error().stack.split("\n").slice(2, 6).join("|"));
      args = args.map((a) => deepConcretize(a));
      self = deepConcretize(self);
    }
  }
  return Reflect.apply(f, self, args);
}
/** method call */
export function m(o, k, ...args) {
  if (o instanceof Sym) {
    if (k === Symbol.iterator && o instanceof SymStr) return o[Symbol.iterator]();
    if (k === "hasOwnProperty") return false;
    const f = o[k];
    if (typeof f !== "function") throw new TypeError(`${String(k)} is not a function`);
    return f.apply(o, args);
  }
  const f = k instanceof Sym ? idx(o, k) : o[k];
  if (typeof f !== "function") throw new TypeError(`${typeof o}.${String(k)} is not a function`);
  return invoke(f, o, args);
}
/** plain call */
export function c(f, ...args) {
  if (typeof f !== "function") throw new TypeError(`callee is not a function`);
  return invoke(f, undefined, args);
}
const NEWMODELS = new Map();
export function n(F, ...args) {
  const model = NEWMODELS.get(F);
  if (model) return model(args, F);
  if (hasSymArg(args) && typeof F === "function") {
    if (F === Error || F.prototype instanceof Error) {
      if (isNative(F)) {
        const msg = args[0];
        const e = new F("", ...args.slice(1));
        if (msg !== undefined) Object.defineProperty(e, "message", { value: msg, writable: true, configurable: true, enumerable: false });
        return e;
      }
    } else if (isNative(F) || FOREIGN.has(F)) args = args.map((a) => deepConcretize(a));
  } else if (typeof F === "function" && FOREIGN.has(F)) args = args.map((a) => deepConcretize(a));
  return Reflect.construct(F, args);
}
export function sup(F, args) { // arguments of a super(...) call
  if (!hasSymArg(args)) return args;
  return args.map((a) => a instanceof Sym ? "‹symbolic›" : a);
}

// ---------------------------------------------------------------- builtin models
export const M = {};
const AP = Array.prototype;
function sv(fn, f) {
  MODELS.set(fn, f);
}
const symmable = (a) => {
  for (let i = 0; i < a.length; i++) if (a[i] instanceof Sym) return true;
  return false;
};
// Array methods that test values
for (const [name, impl] of Object.entries({
  filter(a, [cb, th]) {
    const out = [];
    for (let i = 0; i < a.length; i++) if (i in a) { const v = a[i]; if (t(invoke(cb, th, [v, i, a]))) out.push(v); }
    return out;
  },
  some(a, [cb, th]) {
    for (let i = 0; i < a.length; i++) if (i in a && t(invoke(cb, th, [a[i], i, a]))) return true;
    return false;
  },
  every(a, [cb, th]) {
    for (let i = 0; i < a.length; i++) if (i in a && !t(invoke(cb, th, [a[i], i, a]))) return false;
    return true;
  },
  find(a, [cb, th]) {
    for (let i = 0; i < a.length; i++) if (t(invoke(cb, th, [a[i], i, a]))) return a[i];
    return undefined;
  },
  findIndex(a, [cb, th]) {
    for (let i = 0; i < a.length; i++) if (t(invoke(cb, th, [a[i], i, a]))) return i;
    return -1;
  },
  findLast(a, [cb, th]) {
    for (let i = a.length - 1; i >= 0; i--) if (t(invoke(cb, th, [a[i], i, a]))) return a[i];
    return undefined;
  },
  findLastIndex(a, [cb, th]) {
    for (let i = a.length - 1; i >= 0; i--) if (t(invoke(cb, th, [a[i], i, a]))) return i;
    return -1;
  },
  includes(a, args) {
    if (!(args[0] instanceof Sym) && !symmable(a)) return AP.includes.apply(a, args);
    const f = [];
    for (let i = args[1] ?? 0; i < a.length; i++) {
      const e = eqExpr(a[i], args[0]);
      if (e === X.TRUE) return true;
      f.push(e);
    }
    return mkBool(X.or(...f));
  },
  indexOf(a, args) {
    if (!(args[0] instanceof Sym) && !symmable(a)) return AP.indexOf.apply(a, args);
    for (let i = args[1] ?? 0; i < a.length; i++) if (branch(eqExpr(a[i], args[0]))) return i;
    return -1;
  },
  lastIndexOf(a, args) {
    if (!(args[0] instanceof Sym) && !symmable(a)) return AP.lastIndexOf.apply(a, args);
    for (let i = Math.min(args[1] ?? Infinity, a.length - 1); i >= 0; i--) if (branch(eqExpr(a[i], args[0]))) return i;
    return -1;
  },
  join(a, [sep = ","]) {
    const out = [];
    const S = chars(toS(sep));
    for (let i = 0; i < a.length; i++) {
      if (i) out.push(...S);
      const v = a[i];
      if (v !== null && v !== undefined) for (const q of chars(toStr(v))) out.push(q);
    }
    return mkStr(out);
  },
  sort(a, [cb]) {
    const r = mergeSort([...a], cmpFn(cb));
    for (let i = 0; i < r.length; i++) a[i] = r[i];
    return a;
  },
  toSorted(a, [cb]) {
    return mergeSort([...a], cmpFn(cb));
  },
  flat(a, args) {
    return AP.flat.apply(a, args);
  },
})) {
  const fn = AP[name];
  M[name] = impl;
  sv(fn, (self, args) => Array.isArray(self) ? impl(self, args) : fn.apply(self, args.map(concretize)));
}
sv(AP.toString, (self, args) => M.join(self, []));
function cmpFn(cb) {
  if (cb) return (x, y) => t(gt(invoke(cb, undefined, [x, y]), 0));
  return (x, y) => {
    if (x === undefined || y === undefined) return x === undefined && y !== undefined;
    return t(lt(toStr(y), toStr(x)));
  };
}
function mergeSort(a, after) { // stable insertion sort; after(x,y): x must come after y
  for (let i = 1; i < a.length; i++) {
    const v = a[i];
    let j = i - 1;
    while (j >= 0 && after(a[j], v)) {
      a[j + 1] = a[j];
      j--;
    }
    a[j + 1] = v;
  }
  return a;
}
// index arguments may be symbolic
for (const name of ["slice", "splice", "at", "fill", "with", "copyWithin"]) {
  const fn = AP[name];
  if (!fn) continue;
  sv(fn, (self, args) => {
    if (name === "fill") args = [args[0], ...args.slice(1).map(concretize)];
    else if (name === "splice") args = [...args.slice(0, 2).map(concretize), ...args.slice(2)];
    else if (name === "with") args = [concretize(args[0]), args[1]];
    else args = args.map(concretize);
    return fn.apply(self, args);
  });
}
for (const name of ["push", "unshift", "concat", "pop", "shift", "reverse", "map", "forEach", "reduce", "reduceRight", "flatMap", "entries", "keys", "values", "toReversed", "toSpliced"]) if (AP[name]) SAFE.add(AP[name]);
sv(Array.from, (self, [src, fn, th]) => {
  const out = [];
  if (src instanceof SymStr || src != null && src[Symbol.iterator]) {
    let i = 0;
    for (const v of src) out.push(fn ? invoke(fn, th, [v, i++]) : v);
    return out;
  }
  if (src && src.length instanceof Sym) src = { ...src, length: concretize(src.length) };
  return fn ? Array.from(src, fn, th) : Array.from(src);
});
SAFE.add(Array.isArray);
SAFE.add(Array.of);

// concrete-string receivers with symbolic arguments
for (const name of Object.getOwnPropertyNames(String.prototype)) {
  const fn = String.prototype[name];
  if (typeof fn !== "function" || name === "constructor") continue;
  const symFn = SymStr.prototype[name];
  sv(fn, (self, args) => {
    if (self instanceof SymStr) return symFn.apply(self, args);
    if (typeof self === "string") {
      if (symFn && (hasSymArg(args) || (name.startsWith("replace") && typeof args[1] === "function"))) {
        if (!hasSymArg(args)) {
          // callbacks may return symbolic strings
          return symFn.apply(new SymStr(cuOf(self)), args);
        }
        return symFn.apply(new SymStr(cuOf(self)), args);
      }
      if (hasSymArg(args)) args = args.map(concretize);
    }
    return fn.apply(self, args);
  });
}
sv(String.fromCharCode, (self, args) => {
  if (!hasSymArg(args)) return String.fromCharCode(...args);
  return mkStr(args.map((a) => a instanceof SymNum ? X.mod(a.e, 65536) : Number(a) & 65535));
});
sv(String.fromCodePoint, (self, args) => {
  if (!hasSymArg(args)) return String.fromCodePoint(...args);
  const out = [];
  for (const a of args) {
    if (!(a instanceof SymNum)) { out.push(...cuOf(String.fromCodePoint(a))); continue; }
    if (a.e.hi <= 65535 || branch(X.le(a.e, 65535))) out.push(a.e);
    else out.push(X.add(X.div(X.add(a.e, -65536), 1024), 0xd800), X.add(X.mod(X.add(a.e, -65536), 1024), 0xdc00));
  }
  return mkStr(out);
});
sv(String.raw, (self, [strs, ...vals]) => tpl(strs.raw, vals.slice(0, strs.raw.length - 1)));

// RegExp
sv(RegExp.prototype.test, (self, [s]) => {
  s = toS(s);
  return s instanceof SymStr ? regexTest(self, s) : self.test(s);
});
sv(RegExp.prototype.exec, (self, [s]) => {
  s = toS(s);
  return s instanceof SymStr ? regexExec(self, s) : self.exec(s);
});

// globals
const asFn = (f) => (self, args) => f(...args);
sv(String, (self, args) => args.length === 0 ? "" : typeof args[0] === "symbol" ? String(args[0]) : toStr(args[0]));
sv(Number, (self, args) => {
  if (args.length === 0) return 0;
  const x = args[0];
  if (x instanceof SymBig) return mkNum(x.e);
  return x instanceof Sym ? toNumber(x) : Number(x);
});
sv(Boolean, (self, [x]) => x instanceof Sym ? mkBool(truthExpr(x)) : Boolean(x));
sv(BigInt, (self, [x]) => {
  if (x instanceof SymStr) return strToBig(x);
  if (x instanceof SymBig) return x;
  if (x instanceof SymNum) {
    if (x.d !== 1 && !branch(X.eq(X.mod(x.e, x.d), 0))) throw new RangeError("not an integer");
    return mkBig(x.d === 1 ? x.e : X.div(x.e, x.d));
  }
  if (x instanceof SymBool) return mkBig(X.ite(x.e, 1, 0));
  return BigInt(x);
});
for (const f of new Set([parseInt, Number.parseInt])) sv(f, (self, [s, r]) => s instanceof Sym || r instanceof Sym ? symParseInt(s, r) : parseInt(s, r));
for (const f of new Set([parseFloat, Number.parseFloat])) sv(f, (self, [s]) => s instanceof Sym ? symParseFloat(s) : parseFloat(s));
sv(Number.isInteger, (self, [x]) => x instanceof SymNum ? mkBool(x.d === 1 ? X.TRUE : X.eq(X.mod(x.e, x.d), 0)) : Number.isInteger(x));
sv(Number.isSafeInteger, (self, [x]) =>
  x instanceof SymNum
    ? mkBool(X.and(x.d === 1 ? X.TRUE : X.eq(X.mod(x.e, x.d), 0), X.le(x.e, X.konst(9007199254740991n * BigInt(x.d))), X.ge(x.e, X.konst(-9007199254740991n * BigInt(x.d)))))
    : Number.isSafeInteger(x));
sv(Number.isFinite, (self, [x]) => x instanceof SymNum ? true : Number.isFinite(x));
sv(Number.isNaN, (self, [x]) => x instanceof Sym ? false : Number.isNaN(x));
sv(isFinite, (self, [x]) => { x = x instanceof Sym ? toNumber(x) : x; return x instanceof SymNum ? true : isFinite(x); });
sv(isNaN, (self, [x]) => { x = x instanceof Sym ? toNumber(x) : x; return x instanceof SymNum ? false : isNaN(x); });
sv(Number.prototype.toString, (self, args) => self instanceof SymNum ? numToStr(self, args[0]) : Number.prototype.toString.apply(self, args.map(concretize)));
const hexDigit = (e) => X.ite(X.le(e, 9), X.add(e, 48), X.add(e, 55));
const PLAIN_URI = X.normRanges([[65, 90], [97, 122], [48, 57], [45, 46], [95, 95], [33, 33], [126, 126], [42, 42], [39, 41]]);
sv(encodeURIComponent, (self, [x]) => {
  const s = x instanceof Sym ? toS(x) : x;
  if (!(s instanceof SymStr) || !s.cs.every((c) => typeof c === "number" ? c < 128 : c.hi < 128)) return encodeURIComponent(concretize(s));
  const out = [];
  for (const c of s.cs) {
    if (typeof c === "number") { out.push(...cuOf(encodeURIComponent(String.fromCharCode(c)))); continue; }
    if (branch(X.inSet(c, PLAIN_URI))) out.push(c);
    else out.push(37, hexDigit(X.div(c, 16)), hexDigit(X.mod(c, 16)));
  }
  return mkStr(out);
});
sv(decodeURIComponent, (self, [x]) => {
  const s = x instanceof Sym ? toS(x) : x;
  if (!(s instanceof SymStr)) return decodeURIComponent(s);
  const out = [], HEX = [[48, 57], [65, 70], [97, 102]];
  for (let i = 0; i < s.cs.length; i++) {
    const c = s.cs[i];
    if (!(typeof c === "number" ? c === 37 : branch(X.eq(c, 37)))) { out.push(c); continue; }
    if (i + 2 >= s.cs.length || !branch(X.and(X.inSet(s.cs[i + 1], HEX), X.inSet(s.cs[i + 2], HEX)))) throw new URIError("URI malformed");
    const v = hexVal(s.cs.slice(i + 1, i + 3));
    if (!branch(X.lt(v, 128))) return decodeURIComponent(concretize(s));
    out.push(v);
    i += 2;
  }
  return mkStr(out);
});
// Math
const mathInt = (fn, f) => sv(fn, (self, [x]) => {
  x = x instanceof Sym ? toNumber(x) : x;
  if (!(x instanceof SymNum)) return fn(x);
  if (x.d === 1) return x;
  return f(x);
});
const negZeroOr = (x, e) => { // result e of rounding x; -0 when x < 0
  if (x.e.lo < 0 && branch(X.and(X.lt(x.e, 0), X.eq(e, 0)))) return -0;
  return mkNum(e);
};
mathInt(Math.floor, (x) => mkNum(X.div(x.e, x.d)));
mathInt(Math.ceil, (x) => negZeroOr(x, X.neg(X.div(X.neg(x.e), x.d))));
mathInt(Math.round, (x) => negZeroOr(x, X.div(X.add(X.mul(x.e, 2), x.d), x.d * 2)));
mathInt(Math.trunc, (x) => branch(X.ge(x.e, 0)) ? mkNum(X.div(x.e, x.d)) : negZeroOr(x, X.neg(X.div(X.neg(x.e), x.d))));
sv(Math.abs, (self, [x]) => {
  if (!(x instanceof Sym)) return Math.abs(x);
  x = toNumber(x);
  if (!(x instanceof SymNum)) return Math.abs(x);
  if (x.e.lo >= 0) return x;
  return new SymNum(X.ite(X.ge(x.e, 0), x.e, X.neg(x.e)), x.d);
});
sv(Math.sign, (self, [x]) => {
  if (!(x instanceof SymNum)) return Math.sign(concretize(x));
  return mkNum(X.ite(X.gt(x.e, 0), 1, X.ite(X.eq(x.e, 0), 0, -1)));
});
for (const [fn, pick] of [[Math.min, X.min], [Math.max, X.max]]) {
  sv(fn, (self, args) => {
    if (!hasSymArg(args)) return fn(...args);
    args = args.map((a) => a instanceof Sym ? toNumber(a) : a);
    let acc = args[0];
    for (const b of args.slice(1)) {
      const A = numParts(acc), B = numParts(b);
      if (A && B && A.d === 1 && B.d === 1) acc = mkNum(pick(A.e, B.e));
      else if (typeof acc === "number" && Number.isNaN(acc) || typeof b === "number" && Number.isNaN(b)) acc = NaN;
      else acc = t(fn === Math.min ? le(acc, b) : ge(acc, b)) ? acc : b;
    }
    return acc;
  });
}
// Object
sv(Object.is, (self, [a, b]) => {
  if (!(a instanceof Sym) && !(b instanceof Sym)) return Object.is(a, b);
  if (Object.is(a, -0) || Object.is(b, -0)) return false; // symbolic numbers are never -0
  return eq(a, b);
});
for (const f of [Object.prototype.hasOwnProperty, Object.hasOwn, Object.prototype.propertyIsEnumerable]) {
  sv(f, (self, args) => {
    const o = f === Object.hasOwn ? args[0] : self;
    const k = f === Object.hasOwn ? args[1] : args[0];
    if (o instanceof Sym) return false;
    if (k instanceof Sym) return resolveKey(o, toS(k), true) !== undefined;
    return f.apply(self, args);
  });
}
sv(Object.fromEntries, (self, [it]) => {
  const o = {};
  for (const ent of it) setidx(o, ent[0], ent[1]);
  return o;
});
sv(Object.keys, (self, [o]) => o instanceof Sym ? Object.keys(concretize(o)) : [...Object.keys(o), ...symPropsOf(o).map((e) => e[0])]);
sv(Object.entries, (self, [o]) => [...Object.entries(o), ...symPropsOf(o).map((e) => [e[0], e[1]])]);
sv(Object.values, (self, [o]) => [...Object.values(o), ...symPropsOf(o).map((e) => e[1])]);
for (const f of [Object.assign, Object.freeze, Object.seal, Object.create, Object.defineProperty, Object.defineProperties, Object.getOwnPropertyDescriptor, Object.getOwnPropertyDescriptors, Object.getOwnPropertyNames, Object.getOwnPropertySymbols, Object.setPrototypeOf, Object.isFrozen, Object.preventExtensions, Reflect.ownKeys, Reflect.get, Reflect.set, Reflect.has, Reflect.getPrototypeOf, Reflect.construct, Reflect.defineProperty, Reflect.getOwnPropertyDescriptor, Symbol.for, Symbol]) SAFE.add(f);
sv(Object.getPrototypeOf, (self, [o]) => {
  if (o instanceof Sym) return { string: String, number: Number, boolean: Boolean, bigint: BigInt }[typeOf(o)].prototype;
  return Object.getPrototypeOf(o);
});
sv(Reflect.apply, (self, [f, th, args]) => invoke(f, th, [...args]));
sv(Object.prototype.toString, (self) => self instanceof Sym ? { string: "[object String]", number: "[object Number]", boolean: "[object Boolean]", bigint: "[object BigInt]" }[typeOf(self)] : Object.prototype.toString.call(self));
sv(Object.isFrozen, (self, [o]) => o instanceof Sym ? true : Object.isFrozen(o));
sv(Object.freeze, (self, [o]) => o instanceof Sym ? o : Object.freeze(o));
// Function
sv(Function.prototype.call, (self, [th, ...args]) => invoke(self, th, args));
sv(Function.prototype.apply, (self, [th, args]) => invoke(self, th, args ? [...args] : []));
sv(Function.prototype.bind, (self, [th, ...bound]) => {
  const f = function (...args) {
    return invoke(self, th, [...bound, ...args]);
  };
  return f;
});
// Promise & iterators & weak collections are value-agnostic
for (const f of [Promise.resolve, Promise.reject, Promise.all, Promise.allSettled, Promise.race, Promise.any, Promise.prototype.then, Promise.prototype.catch, Promise.prototype.finally, WeakMap.prototype.get, WeakMap.prototype.set, WeakMap.prototype.has, WeakMap.prototype.delete, WeakSet.prototype.add, WeakSet.prototype.has, queueMicrotask]) SAFE.add(f);
{
  const weak = (f, dflt) => sv(f, (self, args) => args[0] instanceof Sym ? dflt : f.apply(self, args));
  weak(WeakMap.prototype.get, undefined);
  weak(WeakMap.prototype.has, false);
  weak(WeakSet.prototype.has, false);
}
for (const proto of [
  Object.getPrototypeOf(Object.getPrototypeOf((function* () {})())),
  Object.getPrototypeOf(Object.getPrototypeOf((async function* () {})())),
  Object.getPrototypeOf([][Symbol.iterator]()),
  Object.getPrototypeOf(new Map()[Symbol.iterator]()),
  Object.getPrototypeOf(new Set()[Symbol.iterator]()),
]) {
  for (const k of ["next", "return", "throw"]) if (proto[k]) SAFE.add(proto[k]);
}
// Map / Set with symbolic keys
const symKeyed = new WeakSet();
function findKey(coll, k) { // returns the stored key equal to k, or NONE (forks)
  if (k instanceof Sym) {
    for (const q of coll.keys()) {
      const e = eqExpr(q, k);
      if (e !== X.FALSE && branch(e)) return q;
    }
    return NONE;
  }
  if (symKeyed.has(coll)) {
    if (Map.prototype.has.call(coll, k)) return k;
    for (const q of coll.keys()) {
      if (!(q instanceof Sym)) continue;
      const e = eqExpr(q, k);
      if (e !== X.FALSE && branch(e)) return q;
    }
    return NONE;
  }
  return k;
}
const NONE = Symbol("none");
function setFindKey(coll, k) {
  if (k instanceof Sym || symKeyed.has(coll)) {
    if (!(k instanceof Sym) && Set.prototype.has.call(coll, k)) return k;
    for (const q of coll.keys()) {
      if (!(k instanceof Sym) && !(q instanceof Sym)) continue;
      const e = eqExpr(q, k);
      if (e !== X.FALSE && branch(e)) return q;
    }
    return NONE;
  }
  return k;
}
function hasExpr(coll, k, nat) {
  if (!(k instanceof Sym) && !symKeyed.has(coll)) return nat.call(coll, k);
  const f = [];
  for (const q of coll.keys()) {
    const e = eqExpr(q, k);
    if (e === X.TRUE) return true;
    f.push(e);
  }
  return mkBool(X.or(...f));
}
sv(Map.prototype.get, (self, [k]) => {
  const q = findKey(self, k);
  return q === NONE ? undefined : self.get(q);
});
sv(Map.prototype.has, (self, [k]) => hasExpr(self, k, Map.prototype.has));
sv(Map.prototype.set, (self, [k, v]) => {
  const q = findKey(self, k);
  if (q === NONE) {
    if (k instanceof Sym) symKeyed.add(self);
    return self.set(k, v);
  }
  return self.set(q, v);
});
sv(Map.prototype.delete, (self, [k]) => {
  const q = findKey(self, k);
  return q === NONE ? false : self.delete(q);
});
sv(Set.prototype.has, (self, [k]) => hasExpr(self, k, Set.prototype.has));
sv(Set.prototype.add, (self, [k]) => {
  const q = setFindKey(self, k);
  if (q === NONE) {
    if (k instanceof Sym) symKeyed.add(self);
    return self.add(k);
  }
  return self.add(q);
});
sv(Set.prototype.delete, (self, [k]) => {
  const q = setFindKey(self, k);
  return q === NONE ? false : self.delete(q);
});
for (const f of [Map.prototype.forEach, Set.prototype.forEach, Map.prototype.keys, Map.prototype.values, Map.prototype.entries, Map.prototype.clear, Set.prototype.values, Set.prototype.entries, Set.prototype.clear]) SAFE.add(f);
// the bytes of a string of known length; lone surrogates are concretised with their string
MODELS.set(TextEncoder.prototype.encode, (self, [x]) => {
  if (!(x instanceof SymStr)) return self.encode(x === undefined ? "" : String(deepConcretize(x)));
  const out = [];
  for (const u of x.cs) {
    const e = X.isNode(u) ? u : X.konst(u);
    if (branch(X.lt(e, 0x80))) out.push(mkNum(e));
    else if (branch(X.lt(e, 0x800))) out.push(mkNum(X.add(X.div(e, 64), 0xc0)), mkNum(X.add(X.mod(e, 64), 0x80)));
    else if (branch(X.inSet(e, [[0xd800, 0xdfff]]))) return self.encode(deepConcretize(x));
    else out.push(mkNum(X.add(X.div(e, 4096), 0xe0)), mkNum(X.add(X.mod(X.div(e, 64), 64), 0x80)), mkNum(X.add(X.mod(e, 64), 0x80)));
  }
  return out;
});
NEWMODELS.set(Map, ([it]) => {
  const r = new Map();
  if (it != null) for (const e of it) invoke(Map.prototype.set, r, [e[0], e[1]]);
  return r;
});
NEWMODELS.set(Set, ([it]) => {
  const r = new Set();
  if (it != null) for (const e of it) invoke(Set.prototype.add, r, [e]);
  return r;
});
NEWMODELS.set(Array, (args) => hasSymArg(args) ? (args.length === 1 ? new Array(concretize(args[0])) : args) : new Array(...args));
NEWMODELS.set(Promise, (args) => new Promise(args[0]));
NEWMODELS.set(WeakSet, (args) => new WeakSet(...args));
NEWMODELS.set(WeakMap, (args) => new WeakMap(...args));

// JSON
function jsonStr(s) {
  const out = [34];
  for (const ch of chars(s)) {
    if (typeof ch === "number") {
      for (const u of cuOf(JSON.stringify(String.fromCharCode(ch)).slice(1, -1))) out.push(u);
      continue;
    }
    if (branch(X.inSet(ch, [[34, 34], [92, 92]]))) out.push(92, ch);
    else if (branch(X.inSet(ch, [[0, 31], [0xd800, 0xdfff]]))) {
      const v = Number(concInt(ch));
      for (const u of cuOf(JSON.stringify(String.fromCharCode(v)).slice(1, -1))) out.push(u);
    } else out.push(ch);
  }
  out.push(34);
  return mkStr(out);
}
function jsonAny(v) {
  if (v instanceof SymStr) return jsonStr(v);
  if (v instanceof SymBool) return t(v) ? "true" : "false";
  if (v instanceof SymNum) return numToStr(v);
  if (v instanceof SymBig) throw new TypeError("Do not know how to serialize a BigInt");
  if (Array.isArray(v)) {
    let s = "[";
    v.forEach((x, i) => s = add(add(s, i ? "," : ""), jsonAny(x) ?? "null"));
    return add(s, "]");
  }
  if (v !== null && typeof v === "object") {
    if (typeof v.toJSON === "function") return jsonAny(v.toJSON());
    let s = "{", first = true;
    for (const [k, x] of M.entriesOf(v)) {
      const j = jsonAny(x);
      if (j === undefined) continue;
      s = add(add(add(add(s, first ? "" : ","), jsonStr(k)), ":"), j);
      first = false;
    }
    return add(s, "}");
  }
  return JSON.stringify(v);
}
M.entriesOf = (v) => MODELS.get(Object.entries)(null, [v]);
sv(JSON.stringify, (self, args) => {
  if (!deepHasSym(args[0]) || args[1] != null || args[2] != null) return JSON.stringify(deepConcretize(args[0]), ...args.slice(1));
  return jsonAny(args[0]);
});
function jsonParse(s) {
  const cs = s.cs;
  let i = 0;
  const bad = () => { throw new SyntaxError(i < cs.length ? "Unexpected token in JSON at position " + i : "Unexpected end of JSON input"); };
  const is = (code) => i < cs.length && (typeof cs[i] === "number" ? cs[i] === code : branch(X.eq(cs[i], code)));
  const inside = (set) => i < cs.length && branch(X.inSet(cs[i], set));
  const DIG = [[48, 57]];
  const ws = () => { while (inside([[9, 10], [13, 13], [32, 32]])) i++; };
  const word = (w) => { for (const ch of cuOf(w)) { if (!is(ch)) bad(); i++; } };
  const str = () => {
    const out = [];
    for (i++; ; i++) {
      if (i >= cs.length) bad();
      if (is(34)) { i++; return mkStr(out); }
      if (is(92)) {
        i++;
        if (is(117)) {
          for (let k = 1; k <= 4; k++) { i++; if (!inside([[48, 57], [65, 70], [97, 102]])) bad(); }
          const v = toNumber(add("0x", mkStr(cs.slice(i - 3, i + 1))));
          out.push(v instanceof SymNum ? v.e : v);
          continue;
        }
        const e = [[34, 34], [92, 92], [47, 47], [98, 8], [102, 12], [110, 10], [114, 13], [116, 9]].find(([c]) => is(c));
        if (!e) bad();
        out.push(e[1]);
      } else {
        if (inside([[0, 31]])) bad();
        out.push(cs[i]);
      }
    }
  };
  const digits = () => { if (!inside(DIG)) bad(); while (inside(DIG)) i++; };
  const num = () => {
    const from = i;
    if (is(45)) i++;
    if (is(48)) i++;
    else digits();
    if (is(46)) { i++; digits(); }
    if (inside([[69, 69], [101, 101]])) { i++; if (inside([[43, 43], [45, 45]])) i++; digits(); }
    return toNumber(mkStr(cs.slice(from, i)));
  };
  const any = () => {
    ws();
    if (i >= cs.length) bad();
    let v;
    if (is(34)) v = str();
    else if (is(123)) {
      v = {}; i++; ws();
      if (is(125)) i++;
      else for (;;) {
        ws();
        if (!is(34)) bad();
        const k = str();
        ws();
        if (!is(58)) bad();
        i++;
        const x = any();
        if (k === "__proto__") Object.defineProperty(v, k, { value: x, enumerable: true, configurable: true, writable: true });
        else setidx(v, k, x);
        if (is(125)) { i++; break; }
        if (!is(44)) bad();
        i++;
      }
    } else if (is(91)) {
      v = []; i++; ws();
      if (is(93)) i++;
      else for (;;) {
        v.push(any());
        if (is(93)) { i++; break; }
        if (!is(44)) bad();
        i++;
      }
    } else if (is(116)) { word("true"); v = true; }
    else if (is(102)) { word("false"); v = false; }
    else if (is(110)) { word("null"); v = null; }
    else if (inside([[45, 45], [48, 57]])) v = num();
    else bad();
    ws();
    return v;
  };
  const v = any();
  if (i < cs.length) bad();
  return v;
}
sv(JSON.parse, (self, args) => {
  if (!(args[0] instanceof SymStr) || args[1] != null) return JSON.parse(concretize(args[0]), ...args.slice(1));
  return jsonParse(args[0]);
});
// grapheme segmentation: every ASCII character stands alone (CR LF together);
// next to symbolic characters outside ASCII the text is concretised
sv(Intl.Segmenter.prototype.segment, (self, [s]) => {
  if (!(s instanceof SymStr)) return self.segment(s);
  const cs = s.cs;
  const ascii = (c) => typeof c === "number" ? c <= 127 : branch(X.le(c, 127));
  if (!cs.every(ascii)) return self.segment(concretize(s));
  const out = [];
  for (let i = 0; i < cs.length; i++) {
    const eqc = (c, k) => typeof c === "number" ? c === k : branch(X.eq(c, k));
    const n = i + 1 < cs.length && eqc(cs[i], 13) && eqc(cs[i + 1], 10) ? 2 : 1;
    out.push({ segment: mkStr(cs.slice(i, i + n)), index: i, input: s });
    i += n - 1;
  }
  return out;
});
export { regexTest, regexExec };

foreign(globalThis.URL);
foreign(globalThis.Intl);
