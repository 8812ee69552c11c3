import { mix } from "../_lib/mix.ts";
import { group, object } from "@optique/core/constructs";
import { argument, option } from "@optique/core/primitives";
import { multiple, nonEmpty, optional, withDefault } from "@optique/core/modifiers";
import { runWith, runWithSync } from "@optique/core/facade";
import { choice, integer, ipv4, port, string } from "@optique/core/valueparser";
import { bindConfig, createConfigContext } from "@repo/packages/config/src/index.ts";
import { bindEnv, createEnvContext } from "@repo/packages/env/src/index.ts";
import { bindDerivedDefault, createDerivedDefaults } from "@repo/packages/derived-defaults/src/index.ts";
import { asAsync } from "../_lib/sources.ts";

const o: any = option;
// a value parser, a symbolic value of its type, whether it satisfies the constraints and what it becomes
type VP = { make: () => any; val: (sx: any, n: string) => any; good: (sx: any, v: any) => boolean; is?: (sx: any, v: any) => any };
const VPS: Record<string, VP> = {
  pattern: { make: () => string({ pattern: /^[a-m]*$/ }), val: (sx, n) => sx.str(n, { max: 3, chars: [["a", "z"], ["0", "9"]] }), good: (sx, v) => [...Array(v.length).keys()].every((i) => sx.is(sx.charIn(v[i], [["a", "m"]]))) },
  choice: { make: () => choice(["ab", "cd", "abc"]), val: (sx, n) => sx.str(n, { max: 3, chars: [["a", "d"], ["A", "B"]] }), good: (sx, v) => ["ab", "cd", "abc"].some((c) => c.length === v.length && sx.is(sx.eq(c, v))) },
  fold: { make: () => choice(["ab", "Cd"], { caseInsensitive: true }), val: (sx, n) => sx.str(n, { len: 2, chars: [["a", "d"], ["A", "D"]] }), good: (sx, v) => sx.is(sx.and(sx.charIn(v[0], "aA"), sx.charIn(v[1], "bB"))) || sx.is(sx.and(sx.charIn(v[0], "cC"), sx.charIn(v[1], "dD"))), is: (sx, v) => sx.is(sx.charIn(v[0], "aA")) ? "ab" : "Cd" },
  numbers: { make: () => choice([1, 5, -10]), val: (sx, n) => sx.int(n, -12, 12), good: (sx, v) => [1, 5, -10].some((c) => sx.is(v === c)) },
  integer: { make: () => integer({ min: -20, max: 50 }), val: (sx, n) => sx.int(n, -99, 99), good: (sx, v) => sx.is(v >= -20) && sx.is(v <= 50) },
  bigint: { make: () => integer({ type: "bigint", min: -20n, max: 50n }), val: (sx, n) => sx.big(n, -99n, 99n), good: (sx, v) => sx.is(v >= -20n) && sx.is(v <= 50n) },
  port: { make: () => port({ min: 1000, disallowWellKnown: true }), val: (sx, n) => sx.int(n, -1, 70000), good: (sx, v) => sx.is(v >= 1024) && sx.is(v <= 65535) },
  ipv4: { make: () => ipv4({ allowLoopback: false }), val: (sx, n) => "12" + sx.str(n, { len: 1, chars: [["0", "9"]] }) + ".1.2." + sx.str(n + "b", { len: 1, chars: [["0", "9"], ["a", "b"]] }), good: (sx, v) => !sx.is(v[2] === "7") && !sx.is(sx.charIn(v[8], "ab")) },
};
// what the binding is put around; arity: the value is a list
const WRAPS: Record<string, { make: (v: any) => any; list?: boolean; min?: number; max?: number }> = {
  option: { make: (v) => o("-f", v) }, argument: { make: (v) => argument(v) }, optional: { make: (v) => optional(o("-f", v)) }, default: { make: (v) => withDefault(o("-f", v), "zz" as any) },
  group: { make: (v) => group("G", o("-f", v)) }, multiple: { make: (v) => multiple(o("-f", v), { min: 1, max: 2 }), list: true, min: 1, max: 2 }, many: { make: (v) => nonEmpty(multiple(argument(v))) as any, list: true, min: 0, max: 9 },
  deep: { make: (v) => group("G", withDefault(multiple(optional(o("-f", v)) as any, { max: 1 }), [] as any)), list: true, min: 0, max: 1 },
};
const FROM = ["config", "config default", "env default", "derived", "derived default", "through env"];
export default {
  name: "validate",
  bounds: "8 value parsers with constraints (pattern, choices, numbers, ports, addresses), the binding around 8 combinations of option, argument, optional(), withDefault(), group(), multiple() and nonEmpty(); the value from a configuration, a derivation or the default of a binding, also through an outer binding: symbolic texts of 0-3 characters, numbers, lists of 0-3 of them, and values of another type; synchronous and asynchronous",
  assumptions: [],
  covers: ["kept", "refused", "arity", "other type"],
  cases(tier: string) {
    const out: any[] = [];
    let m = 0;
    for (const w of Object.keys(WRAPS)) for (const v of Object.keys(VPS)) for (const f of FROM) for (const a of [0, 1]) for (const n of WRAPS[w].list ? [0, 1, 2, 3, -1] : [1]) {
      m++;
      if (tier === "quick" && (a === 1 && mix(m) % 5 !== 0 || f !== "config" && mix(m) % 3 !== 0 || n === 3 && mix(m) % 2 !== 0)) continue;
      if (v === "ipv4" && n > 1 && tier === "quick") continue;
      out.push([w, v, f, a, n]);
    }
    return out;
  },
  async run(sx: any) {
    const [w, v, from, as, n] = sx.case;
    const { make, val, good, is } = VPS[v], W = WRAPS[w];
    const items: any[] = [];
    for (let i = 0; i < Math.max(n, 0); i++) items.push(val(sx, "v" + i));
    const value: any = !W.list ? items[0] : n < 0 ? (v === "pattern" ? "abc" : 5) : items;
    const vp = as ? asAsync(make()) : make();
    const config: any = createConfigContext({ schema: { "~standard": { version: 1, vendor: "x", validate: (x: any) => ({ value: x }) } } as any });
    const env = createEnvContext({ source: () => undefined });
    const derived: any = createDerivedDefaults({ d: () => from === "derived" ? value : undefined } as any);
    let f: any = W.make(vp);
    const c = { context: config, key: "k" };
    if (from === "config") f = bindConfig(f, c as any);
    if (from === "config default") f = bindConfig(f, { ...c, default: value } as any);
    if (from === "env default") f = bindEnv(f, { context: env, key: "K", parser: string(), default: value } as any);
    if (from === "derived") f = bindDerivedDefault(f, { context: derived.context, key: "d" } as any);
    if (from === "derived default") f = bindDerivedDefault(f, { context: derived.context, key: "d", default: value } as any);
    if (from === "through env") f = bindEnv(bindConfig(f, c as any), { context: env, key: "K", parser: string() } as any);
    const g = object({ f });
    const exits: number[] = [];
    const options: any = { args: [], stdout() {}, stderr() {}, onError: (x: number) => { exits.push(x); return "error"; }, contextOptions: { load: () => ({ config: from === "config" || from === "through env" ? { k: value } : {}, meta: undefined }) } };
    const contexts: any[] = [env, config, derived.context];
    const got: any = as ? await runWith(g, "p", contexts, options) : runWithSync(g, "p", contexts, options);
    sx.observe("r", got === "error" ? got : got.f);
    if (W.list && n < 0) {
      sx.cover("other type");
      sx.assert(got === "error", "a value that is no list is accepted for a repeated option");
      return;
    }
    let ok = true;
    if (W.list && (n < W.min! || n > W.max!)) { sx.cover("arity"); ok = false; }
    if (ok) ok = items.every((x) => good(sx, x));
    sx.cover(ok ? "kept" : "refused");
    sx.assert((got !== "error") === ok, ok ? "a value that satisfies the constraints is refused" : "a value that breaks the field's constraints gets in by another way than the command line");
    if (got === "error") { sx.assert(exits.length === 1 && exits[0] === 1, "an error is not reported once with exit code 1"); return; }
    if (!ok) return;
    const want = items.map((x) => is ? is(sx, x) : x);
    sx.assert(W.list ? got.f.length === n && want.every((x, i) => sx.is(sx.eq(got.f[i], x))) : sx.eq(got.f, want[0]), "the value is not the one given");
  },
};
