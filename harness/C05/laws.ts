import { parse } from "@optique/core/parser";
import { concat, group, merge, object, or, seq, tuple } from "@optique/core/constructs";
import { argument, command, constant, flag, option } from "@optique/core/primitives";
import { map, multiple, optional, withDefault } from "@optique/core/modifiers";
import { fluent } from "@optique/core/fluent";
import { integer, string } from "@optique/core/valueparser";
import { lengths, noOddBundles, tokens } from "../_lib/ref.ts";

const A = () => ({ a: option("-a"), o: optional(option("-o", "--oo", string())) });
const B = () => ({ b: multiple(flag("-b")), n: withDefault(option("-n", integer()), 7) });
const C = () => ({ x: argument(string()), y: optional(argument(integer())) });
const D = () => ({ v: flag("-v"), t: multiple(option("-t", string()), { max: 2 }) });
const id = (v: any) => v;
// law name -> [left, right, value of right expressed as value of left]
const LAWS: Record<string, () => [any, any, (v: any) => any]> = {
  "merge = flat object": () => [merge(object(A()), object(B())), object({ ...A(), ...B() }), id],
  "merge = flat object (args)": () => [merge(object(A()), object(C())), object({ ...A(), ...C() }), id],
  "merge of three": () => [merge(object(A()), object(C()), object(D())), object({ ...A(), ...C(), ...D() }), id],
  "merge commutes": () => [merge(object(B()), object(D())), merge(object(D()), object(B())), id],
  "merge is associative": () => [merge(merge(object(A()), object(B())), object(C())), merge(object(A()), merge(object(B()), object(C()))), id],
  "group is transparent": () => [group("G", object({ ...B(), ...C() })), object({ ...B(), ...C() }), id],
  "group in merge": () => [merge(group("G", object(A())), object(D())), object({ ...A(), ...D() }), id],
  "labels are transparent": () => [object("L", { ...A(), ...C() }), object({ ...A(), ...C() }), id],
  "merge label is transparent": () => [(merge as any)("L", object(A()), object(C())), merge(object(A()), object(C())), id],
  "concat = tuple": () => [concat(tuple([option("-a"), optional(option("-o", string()))]), tuple([multiple(flag("-b")), argument(string())])), tuple([option("-a"), optional(option("-o", string())), multiple(flag("-b")), argument(string())]), id],
  "concat is associative": () => [concat(concat(tuple([option("-a")]), tuple([flag("-f")])), tuple([argument(integer())])), concat(tuple([option("-a")]), concat(tuple([flag("-f")]), tuple([argument(integer())]))), id],
  "tuple = object": () => [tuple([option("-a"), optional(option("-o", "--oo", string())), argument(string()), optional(argument(integer()))]), object({ ...A(), ...C() }), (v) => [v.a, v.o, v.x, v.y]],
  "nested = flat": () => [object({ l: object(A()), r: object(D()) }), object({ ...A(), ...D() }), (v) => ({ l: { a: v.a, o: v.o }, r: { v: v.v, t: v.t } })],
  "nested tuple = flat": () => [tuple([object(B()), object(A())]), object({ ...A(), ...B() }), (v) => [{ b: v.b, n: v.n }, { a: v.a, o: v.o }]],
  "field order of options": () => [object({ ...A(), ...D() }), object({ t: D().t, o: A().o, v: D().v, a: A().a }), (v) => ({ a: v.a, o: v.o, v: v.v, t: v.t })],
  "map applies the function": () => [map(object({ ...A(), ...C() }), (v: any) => [v.x, v.a, v.o]), object({ ...A(), ...C() }), (v) => [v.x, v.a, v.o]],
  "map in a field": () => [object({ o: map(optional(option("-o", string())), (s) => ({ s })), x: map(argument(string()), (x: string) => [x]) }), object({ o: optional(option("-o", string())), x: argument(string()) }), (v) => ({ o: { s: v.o }, x: [v.x] })],
  "constant fields": () => [object({ k: constant("k"), ...A(), ...C() }), object({ ...A(), ...C() }), (v) => ({ k: "k", ...v })],
  "fluent = functional": () => [object({ o: fluent(option("-o", string())).optional(), n: (fluent(option("-n", integer())) as any).withDefault(3), m: (fluent(argument(string())) as any).multiple({ min: 1 }).map((m: string[]) => m.length) }), object({ o: optional(option("-o", string())), n: withDefault(option("-n", integer()), 3), m: map(multiple(argument(string()), { min: 1 }), (m) => m.length) }), id],
  "optional twice": () => [object({ o: optional(optional(option("-o", string()))), x: argument(string()) }), object({ o: optional(option("-o", string())), x: argument(string()) }), id],
  "or is associative": () => [or(or(object({ k: constant(1), a: flag("-a") }), object({ k: constant(2), o: option("-o", string()) })), object({ k: constant(3), x: argument(string()) })), or(object({ k: constant(1), a: flag("-a") }), object({ k: constant(2), o: option("-o", string()) }), object({ k: constant(3), x: argument(string()) })), id],
  "or of commands in a field": () => [object({ c: or(command("a", object(A())), command("b", object(C()))), d: option("-d") }), object({ c: or(command("b", object(C())), command("a", object(A()))), d: option("-d") }), id],
  "merge with or": () => [merge(object({ g: option("-g") }), or(object({ k: constant(1), a: flag("-a") }), object({ k: constant(2), o: option("-o", string()) }))), or(object({ g: option("-g"), k: constant(1), a: flag("-a") }), object({ g: option("-g"), k: constant(2), o: option("-o", string()) })), id],
};
export default {
  name: "laws",
  bounds: "23 laws relating differently composed but equivalent grammars (merge, concat, group, labels, nesting, tuple, map, constants, the fluent form, or); command lines of 0-3 tokens of 0-3 printable ASCII characters",
  assumptions: ["single-dash tokens of three or more characters are letters and digits only"],
  covers: ["both accept", "both reject"],
  cases(tier: string) {
    const out: any[] = [];
    for (const g of Object.keys(LAWS)) {
      for (let k = 0; k <= 2; k++) for (const l of lengths(k, k > 1 ? 1 : 0, 3)) out.push([g, l]);
      for (const l of lengths(3, 1, 2)) out.push([g, l]);
      if (tier !== "quick") { for (const l of lengths(4, 1, 2)) out.push([g, l]); for (const l of lengths(3, 1, 3)) out.push([g, l]); }
    }
    return out;
  },
  run(sx: any) {
    const [g, lens] = sx.case;
    const args = tokens(sx, lens);
    noOddBundles(sx, args);
    const [p, q, f] = LAWS[g]();
    const a = parse(p, args) as any;
    const b = parse(q, args) as any;
    sx.observe("ok", [a.success, b.success]);
    if (a.success) sx.observe("value", a.value);
    sx.assert(a.success === b.success, `${g}: one composition accepts and the other rejects`);
    if (a.success) {
      sx.cover("both accept");
      sx.assert(sx.eq(a.value, f(b.value)), `${g}: the two compositions give different values`);
    } else sx.cover("both reject");
  },
};
