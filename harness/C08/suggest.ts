import { getDocPageAsync, getDocPageSync, suggestAsync, suggestSync } from "@optique/core/parser";
import { GRAMMARS } from "../_lib/grammars.ts";
import { choice } from "@optique/core/valueparser";
import { lengths } from "../_lib/ref.ts";
// every value is one of a choice, so that values are completed too
const C = () => choice(["aa", "ab"]);
// a doc page without its rendering, as comparable data
const flat = (x: any): any => Array.isArray(x) ? x.map(flat) : x !== null && typeof x === "object" ? Object.keys(x).filter((k) => x[k] !== undefined && typeof x[k] !== "function").sort().map((k) => [k, flat(x[k])]) : x;
export default {
  name: "suggest",
  bounds: "15 grammars over all combinators, their values completed asynchronously; beginnings of 0-2 (thorough: 3) words of 1-2 characters, then a prefix of 0-3 characters",
  assumptions: [],
  covers: ["offered", "nothing offered", "page"],
  cases(tier: string) {
    const out: any[] = [];
    for (const g of Object.keys(GRAMMARS)) for (let k = 0; k <= (tier === "quick" ? 1 : 2); k++) for (const l of lengths(k, 1, 2)) {
      for (const p of tier === "quick" ? [0, 2] : [0, 1, 2, 3]) out.push([g, l, p]);
      out.push([g, l, -1]);
    }
    if (tier !== "quick") for (const g of Object.keys(GRAMMARS)) for (const l of [[2, 1, 2], [2, 2, 2], [1, 2, 1]]) out.push([g, l, 0], [g, l, -1]);
    return out;
  },
  async run(sx: any) {
    const [g, lens, pl] = sx.case;
    const args = lens.map((l: number, k: number) => sx.str("t" + k, { len: l }));
    const wrap = (vp: any) => {
      const c: any = vp && vp.suggest ? vp : C();
      return {
        ...c, mode: "async", parse: (s: string) => Promise.resolve(c.parse(s)),
        async *suggest(p: string) { await Promise.resolve(); for (const x of c.suggest(p)) yield x; },
      };
    };
    const sync = (vp: any) => vp && vp.suggest ? vp : C();
    if (pl < 0) {
      sx.cover("page");
      const a = getDocPageSync(GRAMMARS[g](sync), args as any), b = await getDocPageAsync(GRAMMARS[g](wrap), args as any);
      sx.assert(sx.eq(flat(a ?? null), flat(b ?? null)), "the help page differs for asynchronous value parsers");
      return;
    }
    const p = sx.str("p", { len: pl });
    const line = [...args, p] as any;
    const a: any[] = [...suggestSync(GRAMMARS[g](sync), line)], b: any[] = [...await suggestAsync(GRAMMARS[g](wrap), line)];
    sx.cover(a.length > 0 ? "offered" : "nothing offered");
    sx.observe("offered", a.map((s) => s.text ?? s.kind));
    sx.assert(a.length === b.length, "asynchronous value parsers change how much is offered");
    for (let i = 0; i < a.length && i < b.length; i++) sx.assert(a[i].kind === b[i].kind && sx.is(sx.eq(a[i].text ?? "", b[i].text ?? "")), "asynchronous value parsers change what is offered");
  },
};
