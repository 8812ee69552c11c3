// A synchronous pipe to one long-lived SMT solver process (z3 -in).
import { execFileSync, spawn } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
import { emit, emitBV, hasDivision, smtName } from "./expr.mjs";

export const stats = {
  queries: 0, sat: 0, unsat: 0, unknown: 0, cacheHits: 0, ms: 0, errors: 0,
};

export class Solver {
  constructor(dir, cmd = ["z3", "-in"], timeoutMs = 20000) {
    this.timeoutMs = timeoutMs;
    this.cmd = cmd;
    this.dir = fs.mkdtempSync(path.join(dir, "z3-"));
    this.cache = new Map();
    this.start();
  }
  start() {
    const fi = path.join(this.dir, "i" + Date.now()), fo = path.join(this.dir, "o" + Date.now());
    execFileSync("mkfifo", [fi, fo]);
    this.fi = fs.openSync(fi, fs.constants.O_RDWR);
    this.fo = fs.openSync(fo, fs.constants.O_RDWR);
    this.cp = spawn(this.cmd[0], this.cmd.slice(1), {
      stdio: [this.fi, this.fo, this.fo],
    });
    this.cp.unref();
    fs.unlinkSync(fi);
    fs.unlinkSync(fo);
    this.buf = "";
    this.b = Buffer.alloc(1 << 16);
    this.write(`(set-option :produce-models true)\n(set-option :timeout ${this.timeoutMs})\n`);
    this.count = 0;
    this.bvWins = this.liaWins = 0;
  }
  write(s) {
    // A FIFO holds 64 KiB; z3 drains it while we write.
    const buf = Buffer.from(s, "utf8");
    let off = 0;
    while (off < buf.length) {
      off += fs.writeSync(this.fi, buf, off, Math.min(32768, buf.length - off));
    }
  }
  readUntil(mark) {
    for (;;) {
      const i = this.buf.indexOf(mark);
      if (i >= 0) {
        const r = this.buf.slice(0, i);
        this.buf = this.buf.slice(i + mark.length);
        return r;
      }
      const n = fs.readSync(this.fo, this.b, 0, this.b.length, null);
      this.buf += this.b.toString("latin1", 0, n);
    }
  }
  /** @returns {{status:"sat", model: Map}|{status:"unsat"}|{status:"unknown", why:string}} */
  check(constraints) {
    const key = constraints.map((c) => c.id).sort((a, b) => a - b).join(",");
    const hit = this.cache.get(key);
    if (hit) {
      stats.cacheHits++;
      return hit;
    }
    const t0 = performance.now();
    // Linear integer arithmetic first.  Queries with division, or with a product of two
    // unknowns, may be better off as bit-vectors: they are tried both ways, the way that
    // answered most of such queries so far going first, under a short time limit.
    const both = constraints.some(hasDivision);
    const order = both ? (this.bvWins > this.liaWins ? [1, 0] : [0, 1]) : [0];
    let st, getv, bv;
    for (let i = 0; i < order.length; i++) {
      bv = null;
      if (order[i]) {
        bv = emitBV(constraints);
        if (!bv) continue;
      }
      const { text, vars } = bv ?? emit(constraints);
      getv = vars.length > 0
        ? `(get-value (${vars.map((v) => smtName(v.args[0])).join(" ")}))`
        : "";
      const lim = order.length > 1 && i === 0 ? Math.min(this.timeoutMs, 700) : this.timeoutMs;
      const tac = bv ? "(then simplify propagate-values solve-eqs simplify bit-blast sat)" : "";
      if (i > 0) this.write("(pop)\n");
      this.write(`(set-option :timeout ${lim})\n(push)\n${text}${bv ? `(check-sat-using (try-for ${tac} ${lim}))` : "(check-sat)"}\n(echo "@1")\n`);
      st = this.readUntil("@1").trim();
      if (st.includes("(error")) {
        stats.errors++;
        console.error("solver error: " + st.slice(0, 500) + "\n" + text.slice(0, 2000));
      }
      if (st === "sat" || st === "unsat") {
        if (both) {
          // how well the first choice did decides the next one
          if (order[i]) this.bvWins++; else this.liaWins++;
          if (i > 0) { if (order[i]) this.bvWins += 4; else this.liaWins += 4; }
        }
        break;
      }
    }
    let res;
    if (st === "sat") {
      const model = new Map();
      if (getv) {
        this.write(`${getv}\n(echo "@2")\n`);
        const out = this.readUntil("@2");
        parseValues(out, model, bv?.width);
      }
      res = { status: "sat", model };
      stats.sat++;
    } else if (st === "unsat") {
      res = { status: "unsat" };
      stats.unsat++;
    } else {
      res = { status: "unknown", why: st };
      stats.unknown++;
    }
    this.write("(pop)\n");
    stats.queries++;
    stats.ms += performance.now() - t0;
    if (process.env.SX_SLOWQ && performance.now() - t0 > +process.env.SX_SLOWQ) fs.appendFileSync('/tmp/slowq.txt', `; ${st} ${performance.now() - t0} ${bv ? 'bv' : 'lia'}\n` + (bv ?? emit(constraints)).text + '\n');
    if (this.cache.size > 400000) this.cache.clear();
    this.cache.set(key, res);
    return res;
  }
  close() {
    try {
      this.write("(exit)\n");
    } catch { /* already gone */ }
    try {
      this.cp.kill();
    } catch { /* already gone */ }
    try {
      fs.closeSync(this.fi);
      fs.closeSync(this.fo);
    } catch { /* ignore */ }
    fs.rmSync(this.dir, { recursive: true, force: true });
  }
}

function parseValues(s, model, width) {
  if (width) {
    // ((|x| #b0101) (|y| #x1f) (|b| true))
    const re = /\((\|[^|]*\||[^\s()|]+)\s+(#b[01]+|#x[0-9a-f]+|true|false)\)/g;
    for (let m; (m = re.exec(s));) {
      const n = m[1][0] === "|" ? m[1].slice(1, -1) : m[1], v = m[2];
      if (v[0] !== "#") { model.set(n, v === "true"); continue; }
      let b = BigInt("0" + v.slice(1));
      if (b >> BigInt(width - 1)) b -= 1n << BigInt(width);
      model.set(n, b >= -9007199254740991n && b <= 9007199254740991n ? Number(b) : b);
    }
    return;
  }
  // ((|x| 5) (|y| (- 3)) (|b| true))
  const re = /\((\|[^|]*\||[^\s()|]+)\s+(\(-\s*\d+\)|-?\d+|true|false)\)/g;
  let m;
  while ((m = re.exec(s))) {
    let n = m[1];
    if (n[0] === "|") n = n.slice(1, -1);
    const v = m[2];
    if (v === "true" || v === "false") model.set(n, v === "true");
    else {
      const t = v[0] === "(" ? "-" + v.replace(/[^\d]/g, "") : v;
      const b = BigInt(t);
      model.set(
        n,
        b >= -9007199254740991n && b <= 9007199254740991n ? Number(b) : b,
      );
    }
  }
}
