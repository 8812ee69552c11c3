// A symbolic regular-expression engine for JavaScript syntax.
// `compile(re)` parses the source; matching runs over a symbolic string
// (array of code units, concrete numbers or Int expressions).
//  - ends(): set of end positions with Bool formulas (no forking) for test()
//  - exec(): spec-order backtracking with forks on character tests (captures)
import * as X from "./expr.mjs";

const setCache = new Map();
/** Ranges of 16-bit code units matched by a one-character atom. */
function atomSet(src, flags) {
  const key = flags + "/" + src;
  let r = setCache.get(key);
  if (r) return r;
  const re = new RegExp("^(?:" + src + ")$", flags);
  const u = flags.includes("u") || flags.includes("v");
  r = [];
  let start = -1;
  for (let c = 0; c <= 65535; c++) {
    const sur = c >= 0xd800 && c <= 0xdfff;
    const ok = re.test(String.fromCharCode(c)) && !(u && sur && false);
    if (ok) {
      if (start < 0) start = c;
    } else if (start >= 0) {
      r.push([start, c - 1]);
      start = -1;
    }
  }
  if (start >= 0) r.push([start, 65535]);
  setCache.set(key, r);
  return r;
}

const cache = new Map();
export function compile(re) {
  const key = re.flags + "/" + re.source;
  let c = cache.get(key);
  if (!c) {
    c = new Parser(re.source, re.flags).parse();
    cache.set(key, c);
  }
  return c;
}

class Parser {
  constructor(src, flags) {
    this.s = src;
    this.p = 0;
    this.ngroups = 0;
    this.names = new Map();
    // flags relevant for atoms
    this.af = [...flags].filter((f) => "iuvs".includes(f)).join("");
    this.multiline = flags.includes("m");
    this.u = flags.includes("u") || flags.includes("v");
    this.v = flags.includes("v");
  }
  parse() {
    const node = this.alt();
    if (this.p !== this.s.length) throw new Error("regex parse: " + this.s);
    return { node, ngroups: this.ngroups, names: this.names };
  }
  alt() {
    const items = [this.seq()];
    while (this.s[this.p] === "|") {
      this.p++;
      items.push(this.seq());
    }
    return items.length === 1 ? items[0] : { t: "alt", items };
  }
  seq() {
    const items = [];
    while (this.p < this.s.length && this.s[this.p] !== "|" && this.s[this.p] !== ")") {
      items.push(this.term());
    }
    return { t: "seq", items };
  }
  term() {
    const g0 = this.ngroups;
    let n = this.atom();
    const m = /^(?:[*+?]|\{\d+(?:,\d*)?\})\??/.exec(this.s.slice(this.p));
    if (m && !(m[0][0] === "{" && false)) {
      this.p += m[0].length;
      let q = m[0], greedy = true;
      if (q.length > 1 && q.endsWith("?")) {
        greedy = false;
        q = q.slice(0, -1);
      }
      let min, max;
      if (q === "*") [min, max] = [0, Infinity];
      else if (q === "+") [min, max] = [1, Infinity];
      else if (q === "?") [min, max] = [0, 1];
      else {
        const mm = /^\{(\d+)(?:(,)(\d*))?\}$/.exec(q);
        min = Number(mm[1]);
        max = mm[2] ? (mm[3] === "" ? Infinity : Number(mm[3])) : min;
      }
      n = { t: "rep", node: n, min, max, greedy, g0, g1: this.ngroups };
    }
    return n;
  }
  charAtom(src) {
    return { t: "char", set: atomSet(src, this.af), src, flags: this.af };
  }
  atom() {
    const s = this.s, c = s[this.p];
    if (c === "^") { this.p++; return { t: "bol", m: this.multiline }; }
    if (c === "$") { this.p++; return { t: "eol", m: this.multiline }; }
    if (c === "(") {
      let m;
      const rest = s.slice(this.p);
      if ((m = /^\(\?(<)?([=!])/.exec(rest))) {
        this.p += m[0].length;
        const node = this.alt();
        this.close();
        return { t: "look", ahead: !m[1], neg: m[2] === "!", node };
      }
      if (rest.startsWith("(?:")) {
        this.p += 3;
        const node = this.alt();
        this.close();
        return node;
      }
      const idx = ++this.ngroups;
      if ((m = /^\(\?<([^>]+)>/.exec(rest))) {
        this.p += m[0].length;
        this.names.set(m[1], idx);
      } else if (rest.startsWith("(?")) {
        throw new Error("unsupported regex group: " + s);
      } else this.p++;
      const node = this.alt();
      this.close();
      return { t: "grp", idx, node };
    }
    if (c === "[") {
      let i = this.p + 1, depth = 1;
      while (i < s.length) {
        if (s[i] === "\\") i += 2;
        else if (s[i] === "[" && this.v) { depth++; i++; }
        else if (s[i] === "]") {
          i++;
          if (--depth === 0) break;
        } else i++;
      }
      const src = s.slice(this.p, i);
      this.p = i;
      return this.charAtom(src);
    }
    if (c === "\\") {
      const rest = s.slice(this.p);
      if (rest[1] === "b" || rest[1] === "B") {
        this.p += 2;
        return { t: "wb", neg: rest[1] === "B" };
      }
      let m;
      if ((m = /^\\([1-9]\d*)/.exec(rest))) {
        this.p += m[0].length;
        return { t: "bref", idx: Number(m[1]) };
      }
      if ((m = /^\\k<([^>]+)>/.exec(rest))) {
        this.p += m[0].length;
        return { t: "bref", name: m[1] };
      }
      m = /^\\(?:u\{[0-9a-fA-F]+\}|u[0-9a-fA-F]{4}|x[0-9a-fA-F]{2}|[pP]\{[^}]*\}|c[A-Za-z]|[^])/.exec(rest);
      this.p += m[0].length;
      return this.charAtom(m[0]);
    }
    if (this.u) {
      const cp = s.codePointAt(this.p);
      const ch = String.fromCodePoint(cp);
      this.p += ch.length;
      return this.charAtom(ch);
    }
    this.p++;
    if (c === "/" ) return this.charAtom("\\/");
    return this.charAtom(c === "{" || c === "}" || c === "]" ? "\\" + c : c);
  }
  close() {
    if (this.s[this.p] !== ")") throw new Error("regex paren: " + this.s);
    this.p++;
  }
}

const WORD = [[48, 57], [65, 90], [95, 95], [97, 122]];
const LT = [[10, 10], [13, 13], [0x2028, 0x2029]];
const inS = (c, set) => X.inSet(c, set);

function assertion(n, i, cs) {
  switch (n.t) {
    case "bol":
      if (i === 0) return X.TRUE;
      return n.m ? inS(cs[i - 1], LT) : X.FALSE;
    case "eol":
      if (i === cs.length) return X.TRUE;
      return n.m ? inS(cs[i], LT) : X.FALSE;
    case "wb": {
      const a = i > 0 ? inS(cs[i - 1], WORD) : X.FALSE;
      const b = i < cs.length ? inS(cs[i], WORD) : X.FALSE;
      const ne = X.not(X.iff(a, b));
      return n.neg ? X.not(ne) : ne;
    }
  }
}

/** Map of end position -> formula. */
function ends(n, i, cs) {
  const out = new Map();
  const put = (j, f) => {
    if (f === X.FALSE) return;
    const p = out.get(j);
    out.set(j, p ? X.or(p, f) : f);
  };
  switch (n.t) {
    case "char":
      if (i < cs.length) put(i + 1, inS(cs[i], n.set));
      break;
    case "seq": {
      let cur = new Map([[i, X.TRUE]]);
      for (const it of n.items) {
        const nx = new Map();
        for (const [j, f] of cur) {
          for (const [k, g] of ends(it, j, cs)) {
            const h = X.and(f, g);
            if (h === X.FALSE) continue;
            const p = nx.get(k);
            nx.set(k, p ? X.or(p, h) : h);
          }
        }
        cur = nx;
        if (cur.size === 0) break;
      }
      return cur;
    }
    case "alt":
      for (const it of n.items) for (const [j, f] of ends(it, i, cs)) put(j, f);
      break;
    case "grp":
      return ends(n.node, i, cs);
    case "rep": {
      let cur = new Map([[i, X.TRUE]]);
      if (n.min === 0) put(i, X.TRUE);
      const maxIter = Math.min(n.max, cs.length - i + n.min + 1);
      for (let c = 1; c <= maxIter && cur.size; c++) {
        const nx = new Map();
        for (const [j, f] of cur) {
          for (const [k, g] of ends(n.node, j, cs)) {
            if (k === j && c > n.min) continue; // empty iterations are pruned
            const h = X.and(f, g);
            if (h === X.FALSE) continue;
            const p = nx.get(k);
            nx.set(k, p ? X.or(p, h) : h);
          }
        }
        cur = nx;
        if (c >= n.min) for (const [k, f] of cur) put(k, f);
      }
      break;
    }
    case "look": {
      let f;
      if (n.ahead) f = X.or(...ends(n.node, i, cs).values());
      else {
        const alts = [];
        const pre = cs.slice(0, i);
        for (let st = 0; st <= i; st++) {
          const g = ends(n.node, st, pre).get(i);
          if (g) alts.push(g);
        }
        f = X.or(...alts);
      }
      put(i, n.neg ? X.not(f) : f);
      break;
    }
    case "bol": case "eol": case "wb":
      put(i, assertion(n, i, cs));
      break;
    case "bref":
      throw new NeedFork();
    default:
      throw new Error("regex node " + n.t);
  }
  return out;
}
class NeedFork extends Error {}

/** Bool formula: the regex matches starting exactly at i. */
export function matchAt(c, i, cs) {
  return X.or(...ends(c.node, i, cs).values());
}
/** Bool formula: the regex matches somewhere at or after `from`. */
export function testFormula(c, cs, from = 0, sticky = false) {
  const fs = [];
  for (let i = from; i <= cs.length; i++) {
    fs.push(matchAt(c, i, cs));
    if (sticky) break;
  }
  return X.or(...fs);
}
export function hasBackref(c) {
  const w = (n) =>
    n.t === "bref" || (n.items ?? []).some(w) || (n.node ? w(n.node) : false);
  return w(c.node);
}

/** Backtracking match at i; `branch(formula)` forks. Returns {end, caps} or null. */
export function execAt(c, i, cs, branch) {
  const caps = new Array(c.ngroups + 1).fill(undefined);
  function m(n, i, k) {
    switch (n.t) {
      case "char":
        if (i >= cs.length) return null;
        return branch(inS(cs[i], n.set)) ? k(i + 1) : null;
      case "seq": {
        const step = (q, j) =>
          q === n.items.length ? k(j) : m(n.items[q], j, (e) => step(q + 1, e));
        return step(0, i);
      }
      case "alt":
        for (const it of n.items) {
          const r = m(it, i, k);
          if (r !== null) return r;
        }
        return null;
      case "grp": {
        const old = caps[n.idx];
        const r = m(n.node, i, (e) => {
          const o2 = caps[n.idx];
          caps[n.idx] = [i, e];
          const rr = k(e);
          if (rr === null) caps[n.idx] = o2;
          return rr;
        });
        if (r === null) caps[n.idx] = old;
        return r;
      }
      case "rep": {
        const rep = (cnt, j) => {
          const more = () => {
            if (cnt >= n.max) return null;
            const saved = caps.slice();
            for (let g = n.g0 + 1; g <= n.g1; g++) caps[g] = undefined;
            const r = m(n.node, j, (e) => {
              if (e === j && cnt >= n.min) return null;
              return rep(cnt + 1, e);
            });
            if (r === null) for (let g = 0; g < caps.length; g++) caps[g] = saved[g];
            return r;
          };
          if (cnt < n.min) return more();
          if (n.greedy) {
            const r = more();
            return r !== null ? r : k(j);
          }
          const r = k(j);
          return r !== null ? r : more();
        };
        return rep(0, i);
      }
      case "look": {
        if (n.ahead) {
          if (n.neg) {
            const saved = caps.slice();
            const r = m(n.node, i, (e) => e);
            for (let g = 0; g < caps.length; g++) caps[g] = saved[g];
            return r === null ? k(i) : null;
          }
          const r = m(n.node, i, (e) => e);
          return r === null ? null : k(i);
        }
        const f = ends({ t: "seq", items: [{ ...n }] }, i, cs).get(i) ?? X.FALSE;
        return branch(f) ? k(i) : null;
      }
      case "bol": case "eol": case "wb":
        return branch(assertion(n, i, cs)) ? k(i) : null;
      case "bref": {
        const g = caps[n.idx ?? c.names.get(n.name)];
        if (!g) return k(i);
        const len = g[1] - g[0];
        if (i + len > cs.length) return null;
        const f = [];
        for (let q = 0; q < len; q++) f.push(X.eq(cs[g[0] + q], cs[i + q]));
        return branch(X.and(...f)) ? k(i + len) : null;
      }
      default:
        throw new Error("regex node " + n.t);
    }
  }
  const end = m(c.node, i, (e) => e);
  if (end === null) return null;
  return { end, caps };
}
