import { parse } from "@optique/core/parser";
import { longestMatch, object, or } from "@optique/core/constructs";
import { argument, command, constant, flag, option } from "@optique/core/primitives";
import { map, multiple, optional, withDefault } from "@optique/core/modifiers";
import { integer, string } from "@optique/core/valueparser";
import { lengths, noOddBundles, tokens } from "../_lib/ref.ts";

const SETS: Record<string, () => any[]> = {
  modes: () => [
    object({ mode: constant("s"), p: option("-p", integer()), h: optional(option("-h", string())) }),
    object({ mode: constant("c"), c: option("-c", string()), v: option("-v") }),
  ],
  shared: () => [
    object({ mode: constant("a"), v: option("-v"), a: flag("-a") }),
    object({ mode: constant("b"), v: option("-v"), b: flag("-b"), x: optional(argument(string())) }),
    object({ mode: constant("c"), w: option("-v", string()) }),
  ],
  flags: () => [
    map(flag("-v", "--v"), () => "verbose"),
    map(flag("-q"), () => "quiet"),
  ],
  args: () => [
    object({ mode: constant("i"), n: argument(integer()) }),
    object({ mode: constant("s"), s: argument(string()), f: option("-f") }),
    object({ mode: constant("m"), xs: multiple(argument(string()), { min: 2 }) }),
  ],
  commands: () => [
    command("a", object({ c: constant("a"), f: option("-f"), x: optional(argument(string())) })),
    command("bb", object({ c: constant("b"), n: option("-n", integer()) }), { aliases: ["b"] }),
    object({ c: constant("none"), x: argument(string()), f: option("-f") }),
  ],
  rest: () => [
    object({ k: constant("z"), z: flag("-z"), a: option("-a") }),
    object({ k: constant("x"), x: multiple(argument(string()), { min: 1 }) }),
  ],
  prims: () => [flag("-z"), option("-o", string()), argument(string())],
  sharing: () => [
    command("b", object({ c: constant("b"), f: option("-f") })),
    object({ c: constant("o"), f: option("-f"), y: option("-y"), x: multiple(argument(string()), { max: 1 }) }),
  ],
  defaults: () => [
    object({ c: constant(1), a: withDefault(option("-a", integer()), 7), b: flag("-b") }),
    object({ c: constant(2), a: withDefault(option("-a", string()), "d") }),
  ],
};
// Alternatives that share option or argument vocabulary are chosen greedily, so
// completeness is only claimed where each token belongs to one alternative.
const DISJOINT = new Set(["modes", "flags", "rest", "prims"]);
export default {
  name: "or",
  bounds: "9 sets of 2-3 alternatives combined by or() and longestMatch(); command lines of 0-3 tokens of 0-3 printable ASCII characters",
  assumptions: ["single-dash tokens of three or more characters are letters and digits only", "each alternative's own verdict is taken from the real parser run on that alternative alone"],
  covers: ["one", "none"],
  cases(tier: string) {
    const out: any[] = [];
    for (const g of Object.keys(SETS)) for (const kind of ["or", "longest"]) {
      for (let k = 0; k <= 3; k++) for (const l of lengths(k, k > 2 ? 1 : 0, k > 2 ? 2 : 3)) out.push([g, kind, l]);
      if (tier !== "quick") { for (const l of lengths(4, 1, 2)) out.push([g, kind, l]); for (const l of lengths(3, 1, 3)) out.push([g, kind, l]); }
    }
    return out;
  },
  run(sx: any) {
    const [g, kind, lens] = sx.case;
    const args = tokens(sx, lens);
    noOddBundles(sx, args);
    const alone = SETS[g]().map((p) => parse(p, args) as any);
    const p = (kind === "or" ? (or as any) : (longestMatch as any))(...SETS[g]());
    const r = parse(p, args) as any;
    sx.observe("ok", r.success);
    if (r.success) sx.observe("value", r.value);
    const yes = alone.filter((x) => x.success);
    if (r.success) {
      sx.assert(yes.length > 0, "a command line no alternative accepts is accepted");
      sx.assert(sx.or(...yes.map((y) => sx.eq(r.value, y.value))), "the result is not the result of one of the alternatives");
    }
    if (args.length === 0 || !DISJOINT.has(g)) return;
    if (yes.length === 1) {
      sx.cover("one");
      sx.assert(r.success, "a command line exactly one alternative accepts is rejected");
    } else if (yes.length > 1) {
      sx.cover("several");
      sx.assert(r.success, "a command line several alternatives accept is rejected");
    } else sx.cover("none");
  },
};
