import { parse } from "@optique/core/parser";
import { concat, merge, object, seq, tuple } from "@optique/core/constructs";
import { argument, flag, option } from "@optique/core/primitives";
import { optional, withDefault } from "@optique/core/modifiers";
import { string } from "@optique/core/valueparser";
const P: Record<string, () => any> = {
  object: () => object({ a: option("-a", string()), x: argument(string()) }),
  merge: () => merge(object({ a: option("-a", string()) }), object({ x: argument(string()) })),
  tuple: () => tuple([option("-a", string()), argument(string())]),
  seq: () => seq(argument(string()), argument(string())),
  concat: () => concat(tuple([flag("-a")]), tuple([argument(string())])),
};
const POSITIONAL_SEQUENCES = new Set(["tuple", "seq", "concat"]);
export default {
  name: "absent",
  bounds: "optional and withDefault around five compositions with only required members, with no tokens or only another option's token",
  cases: () => Object.keys(P).flatMap((p) => [0, 1].map((k) => [p, k])),
  covers: ["absent"],
  run(sx: any) {
    const [g, k] = sx.case;
    sx.cover("absent");
    const d = sx.int("default", -5, 5);
    const wd = k ? object({ p: withDefault(P[g](), d as any), v: option("-v") }) : withDefault(P[g](), d as any);
    const op = k ? object({ p: optional(P[g]()), v: option("-v") }) : optional(P[g]());
    const a = parse(wd, k ? ["-v"] : []) as any, b = parse(op, k ? ["-v"] : []) as any;
    sx.observe("r", [a.success, b.success]);
    const what = POSITIONAL_SEQUENCES.has(g) ? "a tuple or sequence of required parsers" : "an object of required parsers";
    sx.assert(a.success && b.success, "the modifier rejects the absence of " + what);
    sx.assert((k ? a.value.p : a.value) === d && (k ? b.value.p : b.value) === undefined, "absence does not give the default");
  },
};
