import { parse, parseAsync } from "@optique/core/parser";
import { argument, command, constant, flag, option } from "@optique/core/primitives";
import { concat, conditional, longestMatch, merge, object, or, seq, tuple } from "@optique/core/constructs";
import { map, multiple, nonEmpty, optional, withDefault } from "@optique/core/modifiers";
import { choice, string } from "@optique/core/valueparser";
import { tokens } from "../_lib/ref.ts";

// grammars with parts that take several tokens at a time
const G: Record<string, (w: (v: any) => any) => any> = {
  "multiple tuple": (w) => object({ xs: multiple(tuple([option("-n", w(string())), argument(w(string()))])) }),
  "multiple object": (w) => object({ xs: multiple(object({ n: option("-n", w(string())), f: optional(flag("-f")) }), { max: 2 }) }),
  "multiple or": (w) => object({ xs: multiple(or(object({ n: option("-n", w(string())), a: argument(w(string())) }), object({ f: flag("-f") }))) }),
  "multiple bare": (w) => multiple(option("-n", w(string())), { min: 1, max: 2 }),
  "multiple commands": (w) => multiple(or(command("aa", object({ n: option("-n", w(string())) })), command("bb", object({ x: argument(w(string())) })))),
  "seq": (w) => seq(multiple(option("-n", w(string()))), multiple(argument(w(string())))),
  "seq command": (w) => seq(object({ n: optional(option("-n", w(string()))) }), command("aa", object({ x: argument(w(string())), f: optional(flag("-f")) }))),
  "concat": (w) => concat(tuple([option("-n", w(string()))]), tuple([argument(w(string())), optional(argument(w(string())))])),
  "merge": (w) => merge(object({ n: optional(option("-n", w(string()))) }), object({ x: argument(w(string())), y: multiple(argument(w(string()))) })),
  "conditional": (w) => conditional(option("-n", w(choice(["aa", "bb"]))), { aa: object({ x: argument(w(string())) }), bb: object({ m: option("-m", w(string())) }) }, object({ y: multiple(argument(w(string()))) })),
  "longest": (w) => longestMatch(object({ n: option("-n", w(string())), x: argument(w(string())) }), object({ n: option("-n", w(string())), m: option("-m", w(string())) }), object({ y: multiple(argument(w(string())), { min: 1 }) })),
  "or": (w) => or(object({ k: constant("a"), n: option("-n", w(string())), x: argument(w(string())) }), object({ k: constant("b"), m: option("-m", w(string())), x: argument(w(string())) })),
  "modifiers": (w) => object({ a: withDefault(map(option("-n", w(string())), (s: string) => s + "!"), "d"), b: nonEmpty(optional(object({ m: option("-m", w(string())), f: flag("-f") }))) as any }),
  "nested command": (w) => command("aa", object({ g: or(command("bb", object({ x: multiple(argument(w(string()))) })), command("cc", tuple([option("-n", w(string()))]))) })),
};
const SHAPES: Record<string, number[][]> = {
  short: [[2, 1], [2, 2], [1, 2], [2, 1, 1], [2, 2, 1]],
  long: [[2, 1, 1, 2, 1, 1], [2, 1, 2, 2, 1, 2], [2, 2, 2, 2], [1, 2, 1, 2, 1], [2, 1, 2, 1, 2, 1]],
  deep: [[2, 1, 1, 2, 1, 1, 2, 1, 1], [2, 2, 1, 2, 2, 1], [2, 2, 2, 2, 2], [2, 1, 2, 1, 2, 1, 2], [1, 1, 2, 1, 1], [2, 2, 2, 1, 1, 1]],
};
export default {
  name: "groups",
  bounds: "14 grammars whose parts take several tokens at a time (repeated tuples, objects, alternatives and commands, sequences, conditionals); 10 (thorough: 16) command-line shapes of 2-6 (9) tokens of 1-2 characters from '-', n, m, f, a, b, c; every asynchronous value parser settles after 0 or 2 microtask turns (first two calls of a run; the others settle at once)",
  assumptions: [],
  covers: ["accepted", "rejected", "delayed", "two items"],
  cases(tier: string) {
    const out: any[] = [];
    for (const g of Object.keys(G)) for (const s of [...SHAPES.short, ...SHAPES.long, ...(tier === "quick" ? [] : SHAPES.deep)]) out.push([g, s]);
    return out;
  },
  async run(sx: any) {
    const [g, lens] = sx.case;
    // words that mean something to the grammar, or free text
    const args = lens.map((l: number, k: number) => sx.str("t" + k, { len: l, chars: l === 1 ? "a-" : "-nmfabc" }));
    // keep to lines whose two-character words are the grammar's words, "--" or data
    for (const a of args) if (a.length === 2) sx.assume(sx.or(sx.and(a[0] === "-", sx.charIn(a[1], "nmf-")), sx.and(sx.charIn(a[0], "abc"), sx.eq(a[0], a[1]))));
    let calls = 0, delayed = false;
    const wrap = (vp: any) => ({
      ...vp, mode: "async",
      parse(s: string) {
        const n = calls++;
        const r = vp.parse(s);
        if (n < 2 && sx.flag("late" + n)) {
          delayed = true;
          return new Promise((ok) => { Promise.resolve().then(() => Promise.resolve()).then(() => ok(r)); });
        }
        return Promise.resolve(r);
      },
    });
    const a = parse(G[g]((x) => x), args) as any;
    const b = await parseAsync(G[g](wrap), args) as any;
    if (delayed) sx.cover("delayed");
    sx.observe("ok", [a.success, b.success]);
    sx.assert(a.success === b.success, "synchronous and asynchronous value parsers give different verdicts");
    if (a.success) {
      sx.cover("accepted");
      if (a.value?.xs?.length > 1) sx.cover("two items");
      sx.observe("value", a.value);
      sx.assert(sx.eq(a.value, b.value), "synchronous and asynchronous value parsers give different values");
    } else {
      sx.cover("rejected");
      sx.assert(sx.eq(a.error, b.error), "synchronous and asynchronous value parsers give different errors");
    }
  },
};
