import { concat, group, merge, object, or, tuple } from "@optique/core/constructs";
import { argument, command, flag, option } from "@optique/core/primitives";
import { map, multiple, optional, withDefault } from "@optique/core/modifiers";
import { suggestAsync, suggestSync } from "@optique/core/parser";
import { string, transform } from "@optique/core/valueparser";
import { dependency, deriveFrom } from "@optique/core/dependency";

const opt = (n: string, vp: any): any => option(n as any, vp);
// a derived parser that suggests the source values it was built for
const built = (vs: any[], isAsync: boolean): any => ({
  mode: isAsync ? "async" : "sync", metavar: "D", placeholder: "",
  parse: (s: string) => isAsync ? Promise.resolve({ success: true, value: s }) : { success: true, value: s },
  format: (x: any) => x,
  suggest: isAsync
    ? async function* (prefix: string) { const x = vs.join("+"); if (x.startsWith(prefix)) yield { kind: "literal", text: x }; }
    : function* (prefix: string) { const x = vs.join("+"); if (x.startsWith(prefix)) yield { kind: "literal", text: x }; },
});
const GR: Record<string, [(s: any, d: any, s2: any, d2: any) => any, string[], (string | undefined)?, boolean?]> = {
  // grammar, tokens to reach the derived value, value of the source when it is absent, uses two sources
  object: [(s, d) => object({ m: optional(opt("-m", s)), d: opt("-d", d) }), ["-d"]],
  rev: [(s, d) => object({ d: opt("-d", d), m: opt("-m", s) }), ["-d"]],
  withDefault: [(s, d) => object({ d: optional(opt("-d", d)), m: withDefault(opt("-m", s), "w") }), ["-d"], "w"],
  multiple: [(s, d) => object({ d: multiple(opt("-d", d)), m: optional(opt("-m", s)) }), ["-d"]],
  tuple: [(s, d) => tuple([optional(opt("-d", d)), optional(opt("-m", s))]), ["-d"]],
  merge: [(s, d) => merge(object({ d: optional(opt("-d", d)) }), object({ m: optional(opt("-m", s)) })), ["-d"]],
  concat: [(s, d) => concat(tuple([optional(opt("-m", s))]), tuple([optional(opt("-d", d))])), ["-d"]],
  group: [(s, d) => group("G", object({ d: optional(opt("-d", d)), m: optional(opt("-m", s)) })), ["-d"]],
  mapped: [(s, d) => object({ d: map(opt("-d", d), (x: any) => [x]), m: optional(opt("-m", s)) }), ["-d"]],
  arg: [(s, d) => object({ d: argument(d), m: optional(opt("-m", s)) }), []],
  inCommand: [(s, d) => command("c", object({ d: opt("-d", d), m: optional(opt("-m", s)) })), ["-d"]],
  two: [(s, _d, s2, d2) => object({ d: opt("-d", d2), m: optional(opt("-m", s)), n: optional(opt("-n", s2)) }), ["-d"], undefined, true],
  twoMerge: [(s, _d, s2, d2) => merge(object({ d: opt("-d", d2), n: withDefault(opt("-n", s2), "v") }), object({ m: optional(opt("-m", s)) })), ["-d"], undefined, true],
};
export default {
  name: "suggest",
  bounds: "13 grammars with one or two sources, synchronous, asynchronous and through transform(); the source given (0-2 symbolic printable characters) or absent; completion prefixes of 0-2 symbolic characters",
  assumptions: [],
  covers: ["offered", "filtered out", "given", "absent"],
  cases(tier: string) {
    const out: any[] = [];
    for (const g of Object.keys(GR)) for (const m of [-1, 1, 2]) for (const p of [0, 1, 2]) for (const a of [0, 1, 2]) {
      const n = GR[g][3] ? [-1, 1] : [-1];
      for (const k of n) out.push([g, m, k, p, a]);
    }
    return out;
  },
  async run(sx: any) {
    const [gk, ml, nl, pl, a] = sx.case;
    const [make, reach, absent, two] = GR[gk];
    const tr = (q: any): any => a === 2 ? transform(q, { map: (x: any) => [x], unmap: (x: any) => x[0] }) : q;
    const mode: any = a === 1 ? "async" : "sync";
    const s = dependency(string()), s2 = dependency(string());
    const d = tr(s.derive({ metavar: "D", mode, factory: (m: any) => built([m], a === 1), defaultValue: () => "p" }));
    const d2 = tr(deriveFrom({ metavar: "D", mode, dependencies: [s, s2] as const, factory: (x: any, y: any) => built([x, y], a === 1), defaultValues: () => ["p", "q"] as const }));
    const CH: any = [[0x21, 0x2c], [0x2e, 0x7e]];
    const args: string[] = gk === "inCommand" ? ["c"] : [];
    let m: any, n: any;
    if (nl >= 0) args.push("-n", n = sx.str("n", { len: nl, chars: CH }));
    if (ml >= 0) args.push("-m", m = sx.str("m", { len: ml, chars: CH }));
    const prefix = sx.str("p", { len: pl, chars: CH });
    const all: any = [...args, ...reach, prefix];
    const g = make(s, d, s2, d2);
    const got: any[] = a === 1 ? await suggestAsync(g, all) as any : [...suggestSync(g, all)];
    sx.cover(ml >= 0 ? "given" : "absent");
    const vs = [m ?? absent ?? "p", ...(two ? [n ?? (gk === "twoMerge" ? "v" : "q")] : [])];
    const x = vs.join("+");
    const texts = got.filter((y) => y.kind === "literal" && !y.text.startsWith("-")).map((y) => y.text);
    sx.observe("texts", texts);
    if (pl > x.length || !sx.is(sx.eq(x.slice(0, pl), prefix))) {
      sx.cover("filtered out");
      sx.assert(texts.length === 0, "a suggestion of a derived parser does not come from the actual source value");
    } else {
      sx.cover("offered");
      sx.assert(texts.length === 1 && sx.is(sx.eq(texts[0], x)), "the completions of a derived parser do not reflect the actual source value");
    }
  },
};
