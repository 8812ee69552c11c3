import { object, or, tuple } from "@optique/core/constructs";
import { command, option } from "@optique/core/primitives";
import { multiple, optional } from "@optique/core/modifiers";
import { runWith } from "@optique/core/facade";
import { choice, string } from "@optique/core/valueparser";
import { dependency } from "@optique/core/dependency";
import { bindConfig, createConfigContext } from "@repo/packages/config/src/index.ts";
import { bindDerivedDefault, createDerivedDefaults } from "@repo/packages/derived-defaults/src/index.ts";

const o: any = option;
const turns = async (n: number) => { for (let i = 0; i < n; i++) await Promise.resolve(); };
const PLACES: Record<string, { make: (f: any, s: any) => any; args: string[]; get: (v: any) => [any, any] }> = {
  object: { make: (f, s) => object({ f, s: optional(o("-s", s)) }), args: [], get: (v) => [v.f, v.s] },
  command: { make: (f, s) => or(command("c", object({ f, s: optional(o("-s", s)) })), command("d", object({ x: o("-x", s) }))), args: ["c"], get: (v) => [v.f, v.s] },
  tuple: { make: (f, s) => tuple([object({ f }), object({ s: multiple(o("-s", s)) })]), args: [], get: (v) => [v?.[0]?.f, v?.[1]?.s?.[0]] },
};
export default {
  name: "concurrent",
  bounds: "2 (thorough: 3) runs of one parser with one set of contexts at the same time, in 3 grammars, with a configuration and with a derived default; each run's command line (an option given or not), configuration and derivation its own, symbolic; loading, deriving and parsing each take 0-3 further turns, chosen for each run",
  assumptions: ["time passes only between turns of the event loop"],
  covers: ["own values", "one run without", "interleaved"],
  cases(tier: string) {
    const out: any[] = [];
    for (const p of Object.keys(PLACES)) for (const src of ["config", "derived", "both", "dependent"]) for (const n of tier === "quick" ? [2] : [2, 3]) out.push([p, src, n]);
    return out;
  },
  async run(sx: any) {
    const [place, src, n] = sx.case;
    const P = PLACES[place];
    const late: any[] = [];
    for (let i = 0; i < n; i++) late.push([sx.int("load" + i, 0, i === 0 ? 3 : 1), sx.int("parse" + i, 0, i === 0 ? 2 : 1)]);
    const events: number[] = [];
    const config: any = createConfigContext({ schema: { "~standard": { version: 1, vendor: "x", validate: (x: any) => ({ value: x }) } } as any });
    const vals: any[] = [], given: any[] = [];
    for (let i = 0; i < n; i++) {
      vals.push(i === 1 && sx.flag("none1") ? undefined : sx.str("v" + i, { len: 1, chars: "xyz" }));
      given.push(i === 0 || sx.flag("given" + i) ? sx.str("s" + i, { len: 1, chars: "stu" }) : undefined);
    }
    // which run a derivation belongs to shows only in what was parsed
    const derived: any = createDerivedDefaults({ d: async (parsed: any) => {
      const s = P.get(parsed)[1];
      await turns(2);
      return s === undefined ? "none" : s + "!";
    } } as any);
    const slow = { ...string(), mode: "async", suggest: undefined, validate: undefined, parse: async (t: string) => { const r = string().parse(t); await turns(Number(late[0][1])); return r; } } as any;
    let f: any = o("-f", string());
    if (src === "derived" || src === "both") f = bindDerivedDefault(f, { context: derived.context, key: "d" } as any);
    if (src !== "derived") f = bindConfig(f, { context: config, key: "k" } as any);
    if (src === "dependent") {
      // a source option and one that depends on it, both in one parser object shared by the runs
      const m = dependency(choice(["xa", "yb"]));
      f = object({ m: o("-m", m), e: optional(o("-e", m.derive({ metavar: "E", mode: "sync", factory: (x: any) => choice([x + "1", x + "2"]), defaultValue: () => "xa" } as any))), k: bindConfig(o("-k", string()), { context: config, key: "k", default: "dk" } as any) });
    }
    const g = P.make(f, slow);
    const contexts: any[] = src === "derived" ? [derived.context] : src === "config" || src === "dependent" ? [config] : [config, derived.context];
    const ms = ["xa", "yb", "xa"];
    const one = (i: number) => runWith(g, "p", contexts, {
      args: [...P.args, ...(given[i] !== undefined ? ["-s", given[i]] : []), ...(src === "dependent" ? ["-m", ms[i], "-e", ms[i] + "2"] : [])], stdout() {}, stderr() {}, onError: () => "error",
      contextOptions: { load: async () => { events.push(i); await turns(Number(late[i][0])); events.push(i); return { config: vals[i] === undefined ? {} : { k: vals[i] }, meta: undefined }; } },
    } as any);
    const got: any[] = await Promise.all([...Array(n).keys()].map(one));
    if (events.length >= 3 && events[0] !== events[1]) sx.cover("interleaved");
    for (let i = 0; i < n; i++) {
      const d = given[i] === undefined ? "none" : given[i] + "!";
      const want = src === "config" ? vals[i] : src === "derived" ? d : vals[i] ?? (src === "dependent" ? "dk" : undefined);
      if (want === undefined && src === "both") { sx.cover("one run without"); continue; }
      if (want === undefined) { sx.cover("one run without"); sx.assert(got[i] === "error", "a run gets a value that belongs to another run"); continue; }
      sx.assert(got[i] !== "error", "a run fails because of another run");
      if (got[i] === "error") continue;
      const [fv, sv] = P.get(got[i]);
      sx.cover("own values");
      sx.assert(sx.eq(sv, given[i]), "a run gets an option's value of another run");
      if (src === "dependent") {
        sx.assert(sx.eq(fv.k, want) && fv.m === ms[i] && fv.e === ms[i] + "2", "a run gets a value that belongs to another run");
        continue;
      }
      sx.assert(sx.eq(fv, want), "a run gets a value that belongs to another run");
    }
  },
};
