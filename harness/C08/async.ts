import { parse, parseAsync, suggest, suggestAsync } from "@optique/core/parser";
import { formatMessage } from "@optique/core/message";
import { GRAMMARS } from "../_lib/grammars.ts";
import { lengths, tokens } from "../_lib/ref.ts";
export default {
  name: "async",
  bounds: "15 grammars over all combinators; command lines of 0-3 tokens of 0-3 printable ASCII characters; every asynchronous value parser settles after 0 or 2 microtask turns, chosen symbolically per call (first three calls)",
  assumptions: [],
  covers: ["accepted", "rejected", "delayed"],
  cases(tier: string) {
    const out: any[] = [];
    for (const g of Object.keys(GRAMMARS)) {
      for (let k = 0; k <= 2; k++) for (const l of lengths(k, k > 1 ? 1 : 0, k > 1 && tier === "quick" ? 2 : 3)) out.push([g, l]);
      for (const l of tier === "quick" ? [[2, 1, 1], [2, 1, 2], [1, 2, 1], [2, 2, 2]] : lengths(3, 1, 2)) out.push([g, l]);
      if (tier !== "quick") for (const l of [[2, 1, 2, 1], [2, 2, 2, 2], [1, 2, 1, 2], [1, 1, 1, 1]]) out.push([g, l]);
    }
    return out;
  },
  async run(sx: any) {
    const [g, lens] = sx.case;
    const args = tokens(sx, lens);
    let calls = 0, delayed = false;
    const wrap = (vp: any) => ({
      ...vp, mode: "async",
      parse(s: string) {
        const n = calls++;
        const r = vp.parse(s);
        if (n < 3 && sx.flag("late" + n)) {
          delayed = true;
          return new Promise((ok) => { Promise.resolve().then(() => Promise.resolve()).then(() => ok(r)); });
        }
        return Promise.resolve(r);
      },
      ...(vp.suggest && { async *suggest(prefix: string) { for (const x of vp.suggest(prefix)) yield x; } }),
    });
    const a = parse(GRAMMARS[g]((x) => x), args) as any;
    const b = await parseAsync(GRAMMARS[g](wrap), args) as any;
    if (delayed) sx.cover("delayed");
    sx.observe("ok", [a.success, b.success]);
    sx.assert(a.success === b.success, "synchronous and asynchronous value parsers give different verdicts");
    if (a.success) {
      sx.cover("accepted");
      sx.observe("value", a.value);
      sx.assert(sx.eq(a.value, b.value), "synchronous and asynchronous value parsers give different values");
    } else {
      sx.cover("rejected");
      sx.assert(sx.eq(a.error, b.error), "synchronous and asynchronous value parsers give different errors");
    }
  },
};
