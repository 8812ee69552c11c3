// setup_cmd: check that the tools are here and that the executor both finds a
// known counterexample and exhausts a known-true claim.
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { Explorer } from "./explore.mjs";
import { makeSym, inputsUnder } from "./sx.mjs";
import * as rt from "./rt.mjs";
const dir = fs.mkdtempSync(path.join(os.tmpdir(), "optique-sx-self-"));
try {
  const run = async (fn) => {
    const ex = new Explorer({ dir });
    const bad = [];
    const r = await ex.run(fn, (p) => makeSym(p, {}, null), { onPath: (p) => (p.violation ? (bad.push(inputsUnder(p, p.model)), { ok: 1 }) : null) });
    ex.close();
    return { r, bad };
  };
  const a = await run((sx) => {
    const n = sx.int("n", -1000, 1000);
    sx.assert(rt.ne(rt.arith("*", n, 7), 343), "n is never 49");
  });
  if (a.bad.length !== 1 || a.bad[0].n !== 49) throw new Error("counterexample not found: " + JSON.stringify(a.bad));
  const b = await run((sx) => {
    const s = sx.str("s", { max: 3, chars: [["0", "9"]] });
    if (sx.is(rt.cmp("<", rt.toNumber(s), 500))) sx.assert(rt.cmp("<", rt.toNumber(s), 1000));
    else sx.assert(rt.cmp(">", s.length, 2));
  });
  if (b.bad.length || !b.r.complete || b.r.paths < 4) throw new Error("exploration broken: " + JSON.stringify(b.r));
  console.log("symbolic executor ready: " + b.r.paths + " paths in the self test");
} finally {
  fs.rmSync(dir, { recursive: true, force: true });
}
