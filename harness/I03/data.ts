import { object } from "@optique/core/constructs";
import { option } from "@optique/core/primitives";
import { runWith, runWithSync } from "@optique/core/facade";
import { integer, string } from "@optique/core/valueparser";
import { bindConfig, createConfigContext } from "@repo/packages/config/src/index.ts";

// what the schema makes of the data: nothing at all, or something, however little
const OUT: any[] = [undefined, null, 0, -0, "", false, NaN, 0n, 7, "s", true, [], {}];
export default {
  name: "data",
  bounds: "13 schema outputs (undefined, null, falsy and truthy scalars, an empty array, an empty object) for a field bound by accessor and, where a property can be had, one bound by name; the value of the property (absent, undefined, null, false, 0, empty, or a symbolic text of 0-2 characters); defaults given or not; schema at once or promised; runWith and runWithSync",
  assumptions: ["undefined and null are the outputs that mean no configuration, as the documentation says"],
  covers: ["nothing", "falsy data", "data", "property", "default"],
  cases(tier: string) {
    const out: any[] = [];
    for (let k = 0; k < OUT.length; k++) for (const dflt of [0, 1]) for (const api of ["sync", "async", "late"]) out.push(["whole", k, dflt, api]);
    for (const v of ["absent", "undefined", "null", "false", "zero", "text"]) for (const dflt of [0, 1]) for (const api of ["sync", "async", "late"]) out.push(["property", v, dflt, api]);
    return out;
  },
  async run(sx: any) {
    const [what, k, dflt, api] = sx.case;
    const text = sx.str("text", { max: 2, chars: "ab" });
    const prop = k === "undefined" ? { p: undefined } : k === "null" ? { p: null } : k === "false" ? { p: false } : k === "zero" ? { p: 0 } : k === "text" ? { p: text } : {};
    const data = what === "whole" ? OUT[k] : prop;
    const schema: any = { "~standard": { version: 1, vendor: "x", validate: () => api === "late" ? Promise.resolve({ value: data }) : { value: data } } };
    const ctx: any = createConfigContext({ schema });
    const seen: any[] = [], D: any = { d: 1 }, GOT: any = { g: text };
    const field = what === "whole"
      ? bindConfig(option("-f", string()) as any, { context: ctx, key: (c: any) => { seen.push(c); return GOT; }, ...dflt && { default: D } } as any)
      : bindConfig((k === "false" ? option("-f") : k === "zero" ? option("-f", integer()) : option("-f", string())) as any, { context: ctx, key: "p", ...dflt && { default: D } } as any);
    const exits: number[] = [];
    const options: any = { args: [], stdout() {}, stderr() {}, onError: (c: number) => { exits.push(c); return "error"; }, contextOptions: { load: () => ({ config: { any: 1 }, meta: undefined }) } };
    const r: any = api === "sync" ? runWithSync(object({ f: field }), "prog", [ctx], options) : await runWith(object({ f: field }), "prog", [ctx], options);
    const none = what === "whole" ? data === undefined || data === null : k === "absent" || k === "undefined";
    sx.cover(none ? dflt ? "default" : "nothing" : what === "property" ? "property" : data ? "data" : "falsy data");
    if (none) {
      sx.assert(seen.length === 0, "an accessor is called without a configuration");
      if (dflt) sx.assert(exits.length === 0 && r.f === D, "the default is not used where there is no configuration");
      else sx.assert(exits.length === 1 && exits[0] === 1 && r === "error", "a missing value is not reported");
      return;
    }
    // a property that is null may be taken for an absent one
    if (k === "null") {
      if (exits.length === 0) sx.assert(r.f === D || Object.is(r.f, (data as any).p), "a property's value is replaced");
      return;
    }
    sx.assert(exits.length === 0, "a value the configuration has is not found");
    if (exits.length > 0) return;
    if (what === "whole") {
      sx.assert(seen.length > 0, "the accessor is not asked");
      for (const s of seen) sx.assert(Object.is(s, data), "the accessor is not given what the schema gives");
      sx.assert(r.f === GOT, "the accessor's value is not used");
    } else sx.assert(sx.eq(r.f, (data as any).p), "a property's value is not used");
  },
};
