import { object, or, seq } from "@optique/core/constructs";
import { multiple, optional, withDefault } from "@optique/core/modifiers";
import { parse } from "@optique/core/parser";
import { argument, command, constant, flag, option } from "@optique/core/primitives";
import { integer, string } from "@optique/core/valueparser";
import { lengths, tokens } from "../_lib/ref.ts";

const A = () => argument(string());
const cmd = (n: string, o: any) => command(n, object({ c: constant(n), ...o }));
interface Form { parts: () => any[]; names: string[][] } // names: the leading names of each part
const FORMS: Record<string, Form> = {
  profile: { parts: () => [optional(A()), or(cmd("a", {}), cmd("b", { f: option("-f"), x: optional(A()) }))], names: [[], ["a", "b"]] },
  flagArgs: { parts: () => [option("-v"), multiple(A())], names: [["-v"], []] },
  objArgs: { parts: () => [object({ v: option("-v"), n: optional(option("-n", integer())) }), multiple(A()), option("-f")], names: [["-v", "-n"], [], ["-f"]] },
  between: { parts: () => [A(), option("-f"), A()], names: [[], ["-f"], []] },
  around: { parts: () => [multiple(A()), flag("-f"), optional(A())], names: [[], ["-f"], []] },
  twoOptional: { parts: () => [optional(A()), withDefault(option("-n", string()), "d"), optional(argument(integer()))], names: [[], ["-n"], []] },
  repeated: { parts: () => [multiple(option("-n", string())), cmd("a", { n: optional(option("-m", string())) })], names: [["-n"], ["a"]] },
  sameOption: { parts: () => [object({ n: option("-n") }), A(), object({ n: option("-n") })], names: [["-n"], [], ["-n"]] },
};
function splits(n: number, k: number): number[][] { // end positions
  const out: number[][] = [];
  const go = (i: number, from: number, acc: number[]) => {
    if (i === k - 1) { out.push([...acc, n]); return; }
    for (let e = from; e <= n; e++) go(i + 1, e, [...acc, e]);
  };
  go(0, 0, []);
  return out;
}
export default {
  name: "seq",
  bounds: "8 sequences of 2-3 parsers (positionals, repeated ones, options, objects, commands, optional and defaulted); command lines of 0-3 (thorough: 4) tokens of 1-3 printable ASCII characters",
  assumptions: ["each part's own verdict is taken from the real parser run on its part of the tokens (as the only field of an object)", "no `--` before a command name or a word like it", "`--` is not given as an option's value", "no single-dash tokens of three or more characters", "a part that can end does so at `--` or at a name of a later part (documented), so a command line is required to be accepted only if it can be divided that way"],
  covers: ["accepted", "rejected", "terminator"],
  cases: (tier: string) => Object.keys(FORMS).flatMap((f) => [0, 1, 2, 3, ...(tier === "quick" ? [] : [4])].flatMap((k) => lengths(k, 1, k <= 2 ? 3 : k === 3 && tier !== "quick" ? 3 : 2).map((l) => [f, l]))),
  run(sx: any) {
    const [fname, lens] = sx.case as [string, number[]];
    const form = FORMS[fname];
    const args = tokens(sx, lens);
    for (const t of args) if (t.length > 2) sx.assume(sx.or(t[0] !== "-", t[1] === "-")); // bundles may span parts
    const r: any = parse((seq as any)(...form.parts()), args);
    sx.observe("ok", r.success);
    if (r.success) sx.observe("value", r.value);
    for (let i = 1; i < args.length; i++) sx.assume(sx.not(sx.and(args[i - 1] === "-n", args[i] === "--")));
    const term = args.findIndex((t) => sx.is(t === "--"));
    if (term >= 0 && (fname === "profile" || fname === "repeated")) for (const t of args.slice(term + 1)) sx.assume(sx.and(t !== "a", t !== "b"));
    const parts = form.parts();
    const memo: any = {};
    const alone = (i: number, from: number, to: number) => memo[[i, from, to].join()] ??= parse(object({ x: parts[i] }) as any, [...(term >= 0 && term < from ? ["--"] : []), ...args.slice(from, to)]);
    const same: any[] = [];
    for (const s of splits(args.length, parts.length)) {
      let from = 0;
      const rs: any[] = [];
      for (let i = 0; i < parts.length; i++) {
        const x: any = alone(i, from, s[i]);
        if (!x.success) break;
        rs.push(x.value.x);
        from = s[i];
      }
      if (rs.length < parts.length) continue;
      if (r.success) {
        same.push(sx.eq(r.value, rs));
        continue;
      }
      // must it be accepted? not if a part goes on over `--` or over a later part's name
      const last = parts.length - 1, lastFrom = last > 0 ? s[last - 1] : 0;
      if (term >= 0 && term < lastFrom) continue;
      let free = true;
      for (let i = 0; i < last && free; i++) {
        for (let j = i > 0 ? s[i - 1] : 0; j < s[i] && free; j++) {
          for (let k = i + 1; k < parts.length; k++) for (const n of form.names[k]) if (sx.is(sx.or(args[j] === n, args[j].startsWith(n + "=")))) free = false;
        }
      }
      if (!free) continue;
      sx.assert(false, "a sequence is rejected although its parts accept the tokens one after the other" + (term >= 0 ? " (after --)" : ""));
    }
    if (r.success) {
      sx.assert(same.length ? (sx.or as any)(...same) : false, "a sequence is accepted although its parts do not accept the tokens one after the other");
      sx.cover("accepted");
      if (term >= 0) sx.cover("terminator");
      return;
    }
    sx.cover("rejected");
  },
};
