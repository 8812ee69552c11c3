import { parse } from "@optique/core/parser";
import { concat, merge, object, tuple } from "@optique/core/constructs";
import { argument, option } from "@optique/core/primitives";
import { multiple, withDefault } from "@optique/core/modifiers";
import { string } from "@optique/core/valueparser";
const S = () => withDefault(option("/s", string()), "none");
const Y = () => multiple(argument(string()));
const WRAPS: Record<string, () => [any, (v: any) => any]> = {
  object: () => [object({ s: S(), y: Y() }), (v) => v],
  merge: () => [merge(object({ s: S() }), object({ y: Y() })), (v) => v],
  concat: () => [concat(tuple([S()]), tuple([Y()])), ([s, y]: any) => ({ s, y })],
  nested: () => [object({ o: object({ s: S() }), p: object({ y: Y() }) }), (v) => ({ ...v.o, ...v.p })],
};
export default {
  name: "slash",
  bounds: "a slash-named option next to repeated positionals in the same or in a sibling sub-parser; one positional of 1-2 characters before it, a value of 1-2",
  cases: () => ["object", "merge", "concat", "nested"].flatMap((w) => [0, 1, 2].map((k) => [w, k])),
  run(sx: any) {
    const [w, k] = sx.case;
    const a = sx.str("a", { min: 1, max: 2, chars: [["a", "z"]] }), v = sx.str("v", { min: 1, max: 2, chars: [["a", "z"]] });
    const [p, get] = WRAPS[w]();
    const r = parse(p, k === 0 ? [a, "/s", v] : k === 1 ? [a, "/s:" + v] : ["/s", v, a]) as any;
    sx.observe("ok", r.success);
    sx.assert(r.success, "rejected");
    sx.observe("v", r.value);
    sx.assert(sx.eq(get(r.value), { s: v, y: [a] }), k === 2 ? "a slash-named option before the positionals is misread" : "a slash-named option after a sibling sub-parser's repeated positional is taken as a positional");
  },
};
