// Values that may come from the command line, the environment, a configuration
// or a derived default: grammars, sources and the documented precedence.
import { concat, conditional, group, merge, object, or, tuple } from "@optique/core/constructs";
import { argument, command, constant, option } from "@optique/core/primitives";
import { map, optional, withDefault } from "@optique/core/modifiers";
import { runWith, runWithSync } from "@optique/core/facade";
import { integer, string } from "@optique/core/valueparser";
import { bindEnv, createEnvContext } from "@repo/packages/env/src/index.ts";
import { bindConfig, createConfigContext } from "@repo/packages/config/src/index.ts";
import { bindDerivedDefault, createDerivedDefaults } from "@repo/packages/derived-defaults/src/index.ts";

const o: any = option;
export const asAsync = (vp: any): any => ({ ...vp, mode: "async", parse: (s: string) => Promise.resolve(vp.parse(s)), suggest: undefined, validate: undefined });

// where the bound field sits: how to build the grammar, the tokens that give
// its value, and how to read the field back
export const PLACE: Record<string, { make: (f: any) => any; pre: string[]; get: (v: any) => any; alone?: boolean; note?: string }> = {
  object: { make: (f) => object({ s: optional(o("-s", string())), f }), pre: [], get: (v) => v.f },
  first: { make: (f) => object({ f, s: optional(o("-s", string())) }), pre: [], get: (v) => v.f },
  tuple: { make: (f) => map(tuple([optional(o("-s", string())), f]), (v: any) => ({ s: v[0], f: v[1] })), pre: [], get: (v) => v.f },
  merge: { make: (f) => merge(object({ s: optional(o("-s", string())) }), object({ f })), pre: [], get: (v) => v.f },
  group: { make: (f) => group("G", object({ f, s: optional(o("-s", string())) })), pre: [], get: (v) => v.f },
  nested: { make: (f) => object({ s: optional(o("-s", string())), g: object({ f }) }), pre: [], get: (v) => v.g.f },
  command: { make: (f) => command("c", object({ s: optional(o("-s", string())), f })), pre: ["c"], get: (v) => v.f },
  or: { make: (f) => or(command("c", object({ s: optional(o("-s", string())), f })), command("d", constant(0))), pre: ["c"], get: (v) => v.f },
  optional: { make: (f) => object({ s: optional(o("-s", string())), f: optional(f) }), pre: [], get: (v) => v.f },
  default: { make: (f) => object({ s: optional(o("-s", string())), f: withDefault(f, "DD" as any) }), pre: [], get: (v) => v.f },
  grouped: { make: (f) => object({ s: optional(o("-s", string())), f: group("G", f) }), pre: [], get: (v) => v.f },
  optmap: { make: (f) => object({ s: optional(o("-s", string())), f: optional(map(f, (v: any) => [v])) }), pre: [], get: (v) => v.f?.[0] },
  optgroup: { make: (f) => object({ f: optional(group("G", f)), s: optional(o("-s", string())) }), pre: [], get: (v) => v.f },
  mergemap: { make: (f) => merge(object({ s: optional(o("-s", string())) }), object({ f: map(f, (v: any) => [v]) })), pre: [], get: (v) => v.f[0] },
  concat: { make: (f) => map(concat(tuple([optional(o("-s", string()))]), tuple([f])), (v: any) => ({ s: v[0], f: v[1] })), pre: [], get: (v) => v.f },
  conditional: { make: (f) => map(conditional(o("-k", string()), { a: object({ s: optional(o("-s", string())), f }) } as any), (v: any) => v[1]), pre: ["-k", "a"], get: (v) => v.f },
  alone: { make: (f) => map(object({ f }), (v: any) => ({ s: undefined, f: v.f })), pre: [], get: (v) => v.f, alone: true },
  bare: { make: (f) => map(command("c", f), (v: any) => ({ s: undefined, f: v })), pre: ["c"], get: (v) => v.f, alone: true },
  inconcat: { make: (f) => object({ s: optional(o("-s", string())), t: concat(tuple([f]), tuple([])) }), pre: [], get: (v) => v.t[0] },
  intuple: { make: (f) => object({ s: optional(o("-s", string())), t: tuple([f]) }), pre: [], get: (v) => v.t[0] },
  mapped: { make: (f) => object({ s: optional(o("-s", string())), f: map(f, (v: any) => [v]) }), pre: [], get: (v) => v.f[0] },
};
export const ABSENT: Record<string, any> = { optional: undefined, default: "DD", optmap: undefined, optgroup: undefined };
export interface Src { kind: "env" | "config" | "derived"; dflt: boolean; set: boolean }
export interface Setup { place: string; src: Src[]; int: boolean; arg: boolean; async: boolean; sync: boolean }

/** Runs the program; returns its value or null after an error. */
export async function runSources(sx: any, s: Setup, cli: string | undefined, other: string | undefined, vals: any[], dflts: any[], onSeed?: (who: string, seed: any) => void): Promise<{ ok: boolean; value?: any; exit: number[]; keys: string[] }> {
  const inner: any = s.int ? integer({ min: -20, max: 50 }) : string({ pattern: /^([^!]|$)/ });
  const vp = s.async ? asAsync(inner) : inner;
  let f: any = s.arg ? argument(vp) : o("-f", "--ff", vp);
  const keys: string[] = [];
  const env = createEnvContext({ prefix: "P_", source: (k: string) => { keys.push(k); const i = s.src.findIndex((x) => x.kind === "env"); return i >= 0 && s.src[i].set && sx.is(sx.eq(k, "P_KEY")) ? vals[i] : undefined; } });
  const config: any = createConfigContext({ schema: { "~standard": { version: 1, vendor: "x", validate: (v: any) => ({ value: v }) } } as any });
  const derived: any = createDerivedDefaults({ d: (parsed: any) => { onSeed?.("derived", parsed); const i = s.src.findIndex((x) => x.kind === "derived"); return i >= 0 && s.src[i].set ? vals[i] : undefined; } } as any);
  // innermost first
  for (let i = s.src.length - 1; i >= 0; i--) {
    const x = s.src[i], d = x.dflt ? { default: dflts[i] } : {};
    if (x.kind === "env") f = bindEnv(f, { context: env, key: "KEY", parser: (s.async ? asAsync : (y: any) => y)(s.int ? integer() : string()), ...d } as any);
    if (x.kind === "config") f = bindConfig(f, { context: config, key: "ck", ...d } as any);
    if (x.kind === "derived") f = bindDerivedDefault(f, { context: derived.context, key: "d", ...d } as any);
  }
  const g = PLACE[s.place].make(f);
  const args = [...PLACE[s.place].pre];
  if (other !== undefined) args.push("-s", other);
  if (cli !== undefined) args.push(...(s.arg ? [] : ["-f"]), cli);
  const ci = s.src.findIndex((x) => x.kind === "config");
  const contexts: any[] = [];
  for (const k of ["env", "config", "derived"]) if (s.src.some((x) => x.kind === k)) contexts.push(k === "env" ? env : k === "config" ? config : derived.context);
  const exit: number[] = [];
  const options: any = {
    args, stdout: () => { exit.push(-1); }, stderr: () => {}, onError: (c: number) => { exit.push(c); return null; },
    contextOptions: { load: (parsed: any) => { onSeed?.("config", parsed); return ci >= 0 ? { config: s.src[ci].set ? { ck: vals[ci] } : {}, meta: undefined } : undefined; } },
  };
  const value: any = s.sync ? runWithSync(g, "prog", contexts, options) : await runWith(g, "prog", contexts, options);
  if (exit.length > 0) return { ok: false, exit, keys };
  return { ok: true, value, exit, keys };
}
const inRange = (sx: any, n: any) => sx.is(n >= -20) && sx.is(n <= 50);
export const ok = (sx: any, s: Setup, v: any): any => s.int ? inRange(sx, v) : !(v.length > 0 && sx.is(v[0] === "!"));
/** What the documented precedence gives. */
export function expected(sx: any, s: Setup, cli: string | undefined, vals: any[], dflts: any[]): { ok: boolean; value?: any; from: string; soft?: boolean } {
  const check = (v: any, from: string) => {
    // map() cuts the constraints of the field off only for what is outside it
    if (s.int ? !inRange(sx, v) : v.length > 0 && sx.is(v[0] === "!")) return { ok: false, from };
    return { ok: true, value: v, from };
  };
  const read = (t: string, from: string) => {
    if (!s.int) return check(t, from);
    if (!sx.is(sx.test(/^-?\d+$/, t))) return { ok: false, from };
    return check(Number(t), from);
  };
  if (cli !== undefined) return read(cli, "cli");
  // what optional() and withDefault() make of an invalid value is not said
  const soft = (r: any) => !r.ok && s.place in ABSENT ? { ...r, soft: true } : r;
  for (let i = 0; i < s.src.length; i++) {
    if (s.src[i].set) return soft( s.src[i].kind === "env" ? read(vals[i], "env") : check(vals[i], s.src[i].kind));
    if (s.src[i].dflt) return soft(check(dflts[i], "default"));
  }
  if (s.place in ABSENT) return { ok: true, value: ABSENT[s.place], from: "absent" };
  return { ok: false, from: "missing" };
}
