import { createEnvContext } from "@repo/packages/env/src/index.ts";
import { fsHooks } from "../_lib/model_fs.ts";
import { mix } from "../_lib/mix.ts";

// what becomes of each file
const KINDS = ["there", "missing", "fault", "odd", "malformed"];
export default {
  name: "files",
  bounds: "1-3 files, each there (two symbolic letters for A and, when told so, B), missing, refused with a symbolic 6-letter error code, failing with an error that has no code, or malformed; envFile given as one path, as a list, or as paths; outer source set or unset",
  assumptions: ["ENOENT is the code that says a file is missing; ENOTDIR is not tried"],
  covers: ["read", "fault", "missing", "malformed", "later file wins"],
  cases(tier: string) {
    const out: any[] = [];
    for (let n = 1; n <= 3; n++) for (let k = 0; k < KINDS.length ** n; k++) for (const form of n === 1 ? [0, 1, 2] : [1, 2]) {
      const kinds = Array.from({ length: n }, (_, i) => KINDS[Math.floor(k / KINDS.length ** i) % KINDS.length]);
      if (tier === "quick" && n === 3 && mix(k, form) % 4 !== 0) continue;
      out.push([kinds, form]);
    }
    return out;
  },
  run(sx: any) {
    const [kinds, form] = sx.case;
    const names = kinds.map((_: any, i: number) => "f" + i);
    const real: Record<string, string> = {};
    if (sx.flag("realA")) real.A = "real";
    const vals: Record<string, string> = {};
    const texts: string[] = [], errs: any[] = [];
    let stops = -1;
    kinds.forEach((k: string, i: number) => {
      if (k === "there") {
        const a = sx.str("a" + i, { len: 1, chars: "ab" }), b = sx.flag("b" + i) ? sx.str("b" + i, { len: 1, chars: "ab" }) : undefined;
        texts[i] = "A=" + a + "\n" + (b !== undefined ? "B=" + b : "");
        if (stops < 0) { if (vals.A !== undefined) sx.cover("later file wins"); vals.A = a; if (b !== undefined) vals.B = b; }
      } else if (k === "malformed") { texts[i] = "A='x"; if (stops < 0) stops = i; }
      else if (k === "odd") { errs[i] = new Error("odd"); if (stops < 0) stops = i; }
      else {
        const code = k === "missing" ? "ENOENT" : sx.str("code" + i, { len: 6, chars: [["A", "Z"]] });
        errs[i] = Object.assign(new Error("e" + i), { code });
        if (k === "fault") sx.assume(sx.not(sx.eq(code, "ENOENT")));
        if (k === "fault" && stops < 0) stops = i;
      }
    });
    const read: string[] = [];
    fsHooks.readFileSync = (p: string) => {
      const f = p.slice(p.lastIndexOf("/") + 1), i = Number(f.slice(1));
      read.push(f);
      if (errs[i]) throw errs[i];
      return texts[i];
    };
    let ctx: any, thrown: any, threw = false;
    try { ctx = createEnvContext({ envFile: form === 0 ? names[0] : form === 1 ? names : { paths: names }, source: (k: string) => real[k] } as any); } catch (e) { threw = true; thrown = e; }
    sx.assert(read.join() === names.slice(0, stops < 0 ? names.length : stops + 1).join(), "the files are not read in order");
    if (stops >= 0) {
      sx.cover(kinds[stops] === "malformed" ? "malformed" : "fault");
      sx.assert(threw, "a file that cannot be read or understood is taken for a missing one");
      if (kinds[stops] !== "malformed") sx.assert(thrown === errs[stops], "the error of reading a file is replaced");
      else sx.assert(thrown instanceof Error && thrown.message.indexOf("f" + stops) >= 0, "the error does not name the file");
      return;
    }
    sx.assert(!threw, "files that are there or missing are not loaded");
    if (threw) return;
    sx.cover(kinds.includes("missing") ? "missing" : "read");
    sx.assert(sx.eq(ctx.source("A"), real.A ?? vals.A), "a variable does not have the last file's value, or the real one");
    sx.assert(sx.eq(ctx.source("B"), vals.B), "a variable does not have the last file's value that sets it");
    sx.assert(ctx.source("C") === undefined, "a variable nobody set has a value");
  },
};
