import { createEnvContext } from "@repo/packages/env/src/index.ts";
import { fsHooks } from "../_lib/model_fs.ts";

const NAMES = ["VX_A", "VX_B", "constructor", "toString", "__proto__", "hasOwnProperty", "valueOf", "VX_NONE"];
export default {
  name: "real",
  bounds: "variables read from the real environment of the process, which holds one or none of the two names; any of 8 names (also names every object inherits) referred to as $NAME or ${NAME}, assigned earlier in the file or not, with values of 0-2 letters or digits; prefixes",
  assumptions: [],
  covers: ["real", "earlier", "nowhere"],
  cases: () => {
    const out: any[] = [];
    for (const form of ["${@}", "$@", "\"${@}\"", "'$@'"]) for (const real of [0, 1]) for (const earlier of [0, 1]) for (const prefix of ["", "VX_"]) out.push([form, real, earlier, prefix]);
    return out;
  },
  run(sx: any) {
    const [form, real, earlier, prefix] = sx.case;
    const name = sx.pick("name", NAMES), v = sx.str("v", { min: 0, max: 2, chars: [["a", "z"], ["0", "9"]] });
    const set: Record<string, string> = {};
    if (real) { process.env.VX_A = "real"; set.VX_A = "real"; }
    try {
      const text = (earlier ? name + "=" + v + "\n" : "") + "Q=" + form.replace("@", () => name) + "\n";
      fsHooks.readFileSync = () => text;
      const ctx: any = createEnvContext({ envFile: { paths: ["f.env"] }, prefix });
      const inEnv = name === "VX_A" && real === 1;
      const want = form[0] === "'" ? "$" + name : inEnv ? "real" : earlier ? v : "";
      sx.cover(inEnv ? "real" : earlier ? "earlier" : "nowhere");
      sx.observe("q", ctx.source("Q"));
      sx.assert(sx.eq(ctx.source("Q"), want), "a reference does not give the variable's value");
      for (const k of NAMES) {
        const g = ctx.source(k);
        const w = k === "VX_A" && real ? "real" : k === name && earlier ? v : undefined;
        sx.assert(w === undefined ? g === undefined : g !== undefined && sx.eq(g, w), "a name that is no variable has a value, or a variable another one");
      }
    } finally {
      delete process.env.VX_A;
    }
  },
};
