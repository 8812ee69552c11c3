import { concat, conditional, group, longestMatch, merge, object, or, seq, tuple } from "@optique/core/constructs";
import { argument, command, constant, flag, option } from "@optique/core/primitives";
import { map, multiple, nonEmpty, optional, withDefault } from "@optique/core/modifiers";
import { parse, parseAsync } from "@optique/core/parser";
import { string, transform } from "@optique/core/valueparser";
import { dependency, deriveFrom } from "@optique/core/dependency";
import { lengths, tokens } from "../_lib/ref.ts";

// The parser a derived value parser builds for source values `vs`: it depends
// on them in what it accepts and in what it returns.
const built = (vs: any[]): any => ({
  mode: "sync", metavar: "D", placeholder: "",
  parse: (s: string) => s.length > 0 && vs.length > 0 && s[0] === String(vs[0])[0] ? { success: false, error: [{ type: "text", text: "no" }] } : { success: true, value: { of: vs, text: s } },
  format: (x: any) => x.text,
});
// what the same grammar reads when the derived parser takes any text
const opaque: any = { mode: "sync", metavar: "D", placeholder: "", parse: (s: string) => ({ success: true, value: { raw: s } }), format: (x: any) => x.raw };

type G = { make: (s: any, d: any, s2: any, d2: any) => any; src: (v: any) => any; src2?: (v: any) => any; later?: boolean };
const opt = (n: string, vp: any): any => option(n as any, vp);
const GR: Record<string, G> = {
  object: { make: (s, d) => object({ m: optional(opt("-m", s)), d: opt("-d", d) }), src: (v) => v.m },
  required: { make: (s, d) => object({ d: optional(opt("-d", d)), m: opt("-m", s) }), src: (v) => v.m },
  withDefault: { make: (s, d) => object({ m: withDefault(opt("-m", s), "w"), d: optional(opt("-d", d)) }), src: (v) => v.m },
  defaultD: { make: (s, d) => object({ d: withDefault(opt("-d", d), "absent" as any), m: optional(opt("-m", s)) }), src: (v) => v.m },
  multipleD: { make: (s, d) => object({ d: multiple(opt("-d", d)), m: optional(opt("-m", s)) }), src: (v) => v.m },
  tuple: { make: (s, d) => tuple([optional(opt("-d", d)), optional(opt("-m", s))]), src: (v) => v[1] },
  args: { make: (s, d) => object({ m: argument(s), d: argument(d) }), src: (v) => v.m },
  argsRev: { make: (s, d) => object({ d: argument(d), m: argument(s) }), src: (v) => v.m },
  argOpt: { make: (s, d) => object({ d: multiple(argument(d)), m: optional(opt("-m", s)) }), src: (v) => v.m },
  merge: { make: (s, d) => merge(object({ d: optional(opt("-d", d)) }), object({ m: optional(opt("-m", s)) })), src: (v) => v.m },
  concat: { make: (s, d) => concat(tuple([optional(opt("-m", s))]), tuple([optional(opt("-d", d))])), src: (v) => v[0] },
  concatLater: { later: true, make: (s, d) => concat(tuple([optional(opt("-d", d))]), tuple([optional(opt("-m", s))])), src: (v) => v[1] },
  nestedLater: { later: true, make: (s, d) => object({ a: object({ d: optional(opt("-d", d)) }), b: object({ m: optional(opt("-m", s)) }) }), src: (v) => v.b.m },
  mergeDefault: { make: (s, d) => merge(object({ d: optional(opt("-d", d)) }), object({ m: withDefault(opt("-m", s), "w") })), src: (v) => v.m },
  tupleDefault: { make: (s, d) => tuple([optional(opt("-d", d)), withDefault(opt("-m", s), "w")]), src: (v) => v[1] },
  group2: { make: (s, d) => group("G", object({ d: optional(opt("-d", d)), m: withDefault(opt("-m", s), "w") })), src: (v) => v.m },
  mergeOr: { make: (s, d) => merge(object({ m: optional(opt("-m", s)) }), or(object({ d: opt("-d", d) }), object({ e: flag("-e") }))), src: (v) => v.m },
  commandDefault: { make: (s, d) => object({ c: command("c", object({ d: optional(opt("-d", d)) })), m: withDefault(opt("-m", s), "w") }), src: (v) => v.m },
  conditional: { make: (s, d) => conditional(opt("-m", s), { a: object({ d: opt("-d", d) }), b: object({ x: argument(d) }) }, object({ d: optional(opt("-d", d)) })), src: (v) => v[0] },
  group: { make: (s, d) => object({ g: group("G", object({ d: optional(opt("-d", d)) })), m: optional(opt("-m", s)) }), src: (v) => v.m },
  groupedSource: { make: (s, d) => object({ d: optional(opt("-d", d)), m: optional(group("G", opt("-m", s))) }), src: (v) => v.m },
  groupedBoth: { make: (s, d) => tuple([group("G", withDefault(opt("-m", s), "w")), group("H", multiple(opt("-d", d)))]), src: (v) => v[0] },
  nonEmptySource: { make: (s, d) => object({ d: optional(opt("-d", d)), m: withDefault(nonEmpty(opt("-m", s)), "w") }), src: (v) => v.m },
  mapped: { make: (s, d) => object({ d: map(optional(opt("-d", d)), (x: any) => [x]), m: optional(opt("-m", s)) }), src: (v) => v.m },
  nested: { make: (s, d) => object({ a: object({ b: optional(opt("-m", s)) }), c: tuple([object({ d: optional(opt("-d", d)) })]) }), src: (v) => v.a.b },
  command: { make: (s, d) => object({ m: optional(opt("-m", s)), c: command("c", object({ d: optional(opt("-d", d)), x: optional(argument(string())) })) }), src: (v) => v.m },
  inCommand: { make: (s, d) => command("c", object({ d: argument(d), m: optional(opt("-m", s)) })), src: (v) => v.m },
  or: { make: (s, d) => object({ m: optional(opt("-m", s)), o: or(object({ d: opt("-d", d) }), object({ e: flag("-e") })) }), src: (v) => v.m },
  orInner: { make: (s, d) => or(object({ m: optional(opt("-m", s)), d: opt("-d", d) }), object({ e: flag("-e"), m: optional(opt("-m", s)) })), src: (v) => v.m },
  longest: { make: (s, d) => longestMatch(object({ m: optional(opt("-m", s)), d: opt("-d", d) }), object({ d: opt("-d", d), e: flag("-e"), m: optional(opt("-m", s)) })), src: (v) => v.m },
  seq: { make: (s, d) => seq(opt("-m", s), argument(d)), src: (v) => v[0] },
  two: { make: (s, d, _s2, d2) => object({ d: optional(opt("-d", d)), m: optional(opt("-m", s)), e: optional(opt("-e", d)) }), src: (v) => v.m },
  from: { make: (s, _d, s2, d2) => object({ d: optional(opt("-d", d2)), m: optional(opt("-m", s)), n: optional(opt("-n", s2)) }), src: (v) => v.m, src2: (v) => v.n },
  fromMerge: { make: (s, _d, s2, d2) => merge(object({ m: optional(opt("-m", s)) }), object({ d: multiple(opt("-d", d2)) }), object({ n: withDefault(opt("-n", s2), "z") })), src: (v) => v.m, src2: (v) => v.n },
};
const DEF = "p", DEF2 = "q";
const BAD = Symbol();
function resolve(v: any, vs: any[], t: boolean): any {
  if (v !== null && typeof v === "object") {
    if (!Array.isArray(v) && "raw" in v) {
      const r = built(vs).parse(v.raw);
      if (!r.success) throw BAD;
      return t ? { t: r.value } : r.value;
    }
    if (Array.isArray(v)) return v.map((x) => resolve(x, vs, t));
    const o: any = {};
    for (const k of Object.keys(v)) o[k] = resolve(v[k], vs, t);
    return o;
  }
  return v;
}
export default {
  name: "derive",
  bounds: "36 grammars placing a source and its derived parser (one or two sources) in objects, tuples, merge(), concat(), groups, alternatives, commands, conditionals, sequences and nested objects, as options and positionals, under optional(), withDefault(), multiple() and map(), synchronous and asynchronous, also through transform(); command lines of 0-6 tokens of 1-2 (thorough: 4) printable ASCII characters",
  assumptions: [],
  covers: ["accepted", "derived", "default", "actual", "derived parser rejects", "rejected"],
  cases(tier: string) {
    const out: any[] = [];
    for (const g of Object.keys(GR)) {
      for (const l of [[], [1], [2], [2, 1], [2, 2, 1], [2, 1, 2, 1], [1, 2, 1], [1, 1]]) out.push([g, l]);
      if (/ommand/.test(g)) out.push([g, [2, 1, 1, 2, 1]], [g, [1, 2, 1, 1]]);
      if (/from|two/.test(g)) out.push([g, [2, 1, 2, 1, 2, 1]]);
      out.push(["async:" + g, /ommand/.test(g) ? [1, 2, 1, 1] : [2, 1, 2, 1]]);
      for (const l of /from|two/.test(g) ? [[2, 1], [2, 1, 2, 1, 2, 1]] : [[2, 1, 2, 1]]) out.push(["transformed:" + g, /ommand/.test(g) ? [1, 2, 1, 1] : l]);
      if (tier !== "quick") for (const l of [...lengths(3, 1, 3), [2, 2, 2, 2], [4, 4], [2, 1, 4], [2, 1, 2, 1, 1], [2, 1, 1, 2, 1], [2, 1, 2, 1, 2, 1], [1, 2, 1, 2, 1]]) out.push([g, l]);
    }
    return out;
  },
  async run(sx: any) {
    const [key, lens] = sx.case;
    const isAsync = key.startsWith("async:"), isT = key.startsWith("transformed:"), gk = key.slice(key.indexOf(":") + 1);
    const g = GR[gk];
    const where = g.later ? " (the source is declared in a later sub-parser)" : "";
    const args = tokens(sx, lens);
    const s = dependency(string()), s2 = dependency(string());
    const mode: any = isAsync ? "async" : "sync";
    const wrap = (p: any) => isAsync ? { ...p, mode, parse: (x: string) => Promise.resolve(p.parse(x)) } : p;
    const tr = (p: any): any => isT ? transform(p, { map: (x: any) => ({ t: x }), unmap: (x: any) => x.t }) : p;
    const d = tr(s.derive({ metavar: "D", mode, factory: (m: any) => wrap(built([m])), defaultValue: () => DEF }));
    const d2 = tr(deriveFrom({ metavar: "D", mode, dependencies: [s, s2] as const, factory: (a: any, b: any) => wrap(built([a, b])), defaultValues: () => [DEF, DEF2] as const }));
    const real: any = isAsync ? await parseAsync(g.make(s, d, s2, d2), args) : parse(g.make(s, d, s2, d2), args);
    const plain: any = parse(g.make(string(), opaque, string(), opaque), args);
    sx.observe("ok", [real.success, plain.success]);
    if (!plain.success) {
      sx.cover("rejected");
      sx.assert(!real.success, "a derived value parser makes a malformed command line acceptable");
      return;
    }
    const m = g.src(plain.value), m2 = g.src2?.(plain.value);
    sx.cover(m === undefined ? "default" : "actual");
    const vs = [m ?? DEF, ...(g.src2 ? [m2 ?? DEF2] : [])];
    let want: any, bad = false;
    try { want = resolve(plain.value, vs, isT); } catch (e) { if (e !== BAD) throw e; bad = true; }
    if (bad) {
      sx.cover("derived parser rejects");
      sx.assert(!real.success, "a value the parser built for the actual source value rejects is accepted" + where);
      return;
    }
    sx.cover("accepted");
    sx.assert(real.success, "a value the parser built for the actual source value accepts is rejected" + where);
    sx.observe("value", real.value);
    sx.assert(sx.eq(real.value, want), "a derived value was not computed from the actual source value" + where);
    sx.cover("derived");
  },
};
