import { parse } from "@optique/core/parser";
import { compare, type Field, lengths, realObject, reference, tokens } from "../_lib/ref.ts";
const GRAMMARS: Record<string, Field[]> = {
  mixed: [
    { key: "a", kind: "bool", names: ["-a", "--al"] },
    { key: "b", kind: "opt", names: ["-b", "--b"], vp: "str", mod: "optional" },
    { key: "x", kind: "arg", vp: "str", mod: "optional" },
  ],
  flags: [
    { key: "f", kind: "flag", names: ["-f"] },
    { key: "v", kind: "bool", names: ["-v"] },
    { key: "p", kind: "opt", names: ["-p", "/p", "-xy"], vp: "int", mod: "default" },
  ],
  many: [
    { key: "I", kind: "opt", names: ["-I", "--I"], vp: "str", mod: "multiple", max: 2 },
    { key: "v", kind: "flag", names: ["-v"], mod: "multiple" },
    { key: "x", kind: "arg", vp: "str", mod: "multiple", min: 1 },
  ],
  pos: [
    { key: "p", kind: "arg", vp: "str" },
    { key: "q", kind: "arg", vp: "int", mod: "default" },
    { key: "r", kind: "arg", vp: "str", mod: "multiple", max: 1 },
  ],
  neg: [
    { key: "n", kind: "neg", names: ["-y", "--y"], neg: ["-n"], mod: "optional" },
    { key: "p", kind: "arg", vp: "int" },
    { key: "q", kind: "arg", vp: "str" },
  ],
};
export default {
  name: "flat",
  bounds: "5 object grammars (boolean, required, negatable flags; string and integer options with short, long, slash and single-dash-long names; single, optional, defaulted and repeated; positional arguments); every command line of 0-3 tokens of 0-3 (thorough: 0-4) printable ASCII characters each",
  covers: ["accepted", "rejected: repeated", "rejected: missing", "rejected: unknown option", "rejected: no value", "rejected: too few", "rejected: flag with a value", "rejected: bad bundle", "rejected: short name with a joined value", "rejected: value refused", "rejected: unexpected token"],
  cases(tier: string) {
    const out: any[] = [];
    for (const g of Object.keys(GRAMMARS)) {
      for (let k = 0; k <= 3; k++) for (const l of lengths(k, k > 2 ? 1 : 0, tier === "quick" ? (k > 2 ? 3 : 4) : 4)) out.push([g, l]);
      for (const l of [[5], [6], [5, 2], [4, 5]]) out.push([g, l]);
      if (tier !== "quick") for (const l of lengths(4, 2, 3)) out.push([g, l]);
    }
    return out;
  },
  run(sx: any) {
    const [g, lens] = sx.case;
    const fields = GRAMMARS[g];
    const args = tokens(sx, lens);
    const ref = reference(sx, fields, args);
    const r = parse(realObject(fields), args);
    compare(sx, r, ref);
  },
};
