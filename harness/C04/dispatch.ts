import { parse } from "@optique/core/parser";
import { longestMatch, object, or } from "@optique/core/constructs";
import { command } from "@optique/core/primitives";
import { type Field, lengths, noOddBundles, realField, realObject, reference, tokens } from "../_lib/ref.ts";

interface Cmd { key: string; names: string[]; fields: Field[]; subs?: Cmd[]; opts?: any }
interface Tree { globals: Field[]; cmds: Cmd[]; join?: "longest" }
const V: Field = { key: "v", kind: "bool", names: ["-v", "--v"] };
const N: Field = { key: "n", kind: "opt", names: ["-n"], vp: "int", mod: "default" };
const X: Field = { key: "x", kind: "arg", vp: "str" };
const Y: Field = { key: "y", kind: "arg", vp: "str", mod: "multiple" };
const O: Field = { key: "o", kind: "opt", names: ["-o"], vp: "str", mod: "optional" };
const G: Field = { key: "g", kind: "bool", names: ["-g"] };
const TREES: Record<string, Tree> = {
  plain: { globals: [], cmds: [{ key: "A", names: ["ad", "a"], fields: [V, X] }, { key: "R", names: ["r"], fields: [N] }] },
  similar: { globals: [], cmds: [{ key: "A", names: ["a"], fields: [V] }, { key: "B", names: ["ab"], fields: [O] }, { key: "C", names: ["aB", "b"], fields: [Y] }] },
  hidden: { globals: [], cmds: [{ key: "A", names: ["a", "-x"], fields: [V], opts: { hidden: true } }, { key: "B", names: ["b"], fields: [Y] }] },
  globals: { globals: [G, O], cmds: [{ key: "A", names: ["a"], fields: [V] }, { key: "B", names: ["b", "bb"], fields: [N, Y] }] },
  nested: { globals: [G], cmds: [{ key: "R", names: ["r", "re"], fields: [], subs: [{ key: "A", names: ["a"], fields: [V] }, { key: "D", names: ["d", "r"], fields: [X] }] }, { key: "S", names: ["s"], fields: [Y] }] },
  longest: { globals: [], join: "longest", cmds: [{ key: "A", names: ["a", "ab"], fields: [V, Y] }, { key: "B", names: ["b"], fields: [N] }] },
};
function realCmd(c: Cmd): any {
  const inner = c.subs ? (or as any)(...c.subs.map(realCmd)) : realObject(c.fields);
  return (command as any)(c.names[0], object({ cmd: tag(c.key), in: inner }), { ...(c.names.length > 1 && { aliases: c.names.slice(1) }), ...c.opts });
}
import { constant } from "@optique/core/primitives";
const tag = (k: string) => constant(k);
function realTree(t: Tree): any {
  const cs = t.cmds.map(realCmd);
  const c = t.join === "longest" ? (longestMatch as any)(...cs) : (or as any)(...cs);
  if (!t.globals.length) return c;
  const o: any = {};
  for (const f of t.globals) o[f.key] = realField(f);
  return object({ ...o, c });
}
function ref(sx: any, globals: Field[], cmds: Cmd[], pre: string[], args: string[]): any {
  let i = 0;
  for (; i < args.length; i++) {
    const t = args[i];
    sx.assume(t !== "--");
    let isG = false;
    for (const f of globals) for (const n of f.names!) if (sx.is(t === n)) { isG = true; if (f.kind === "opt") i++; }
    if (isG) continue;
    for (const c of cmds) for (const n of c.names) {
      if (!sx.is(t === n)) continue;
      const seen = [...pre, ...args.slice(0, i)], rest = args.slice(i + 1);
      if (c.subs) {
        const r = ref(sx, globals, c.subs, seen, rest);
        return r.ok ? { ...r, c: { cmd: c.key, in: r.c } } : r;
      }
      const r = reference(sx, [...c.fields, ...globals], [...seen, ...rest]);
      if (!r.ok) return r;
      const inner: any = {}, g: any = {};
      for (const f of c.fields) inner[f.key] = r.value[f.key];
      for (const f of globals) g[f.key] = r.value[f.key];
      return { ok: true, g, c: { cmd: c.key, in: inner } };
    }
    // a bundle of global flags, or anything else: no command here
    if (globals.length && t.length > 2) sx.assume(sx.not(sx.and(t[0] === "-", t[1] !== "-")));
    return { ok: false, why: "no such command" };
  }
  return { ok: false, why: "no command" };
}
export default {
  name: "dispatch",
  bounds: "6 command trees (aliases, hidden commands, names that are prefixes or case variants of each other, global options around the command, two levels, longest-match); command lines of 0-4 tokens of 1-3 printable ASCII characters",
  assumptions: ["no -- before the command name", "single-dash tokens of three or more characters are letters and digits only; no bundle before the command name"],
  covers: ["dispatched", "alias", "rejected: no such command", "rejected: no command", "nested"],
  cases(tier: string) {
    const out: any[] = [];
    for (const g of Object.keys(TREES)) {
      for (let k = 0; k <= 3; k++) for (const l of lengths(k, k > 1 ? 1 : 0, k > 2 && tier === "quick" ? 2 : 3)) out.push([g, l]);
      for (const l of lengths(4, 1, 2)) out.push([g, l]);
      if (tier !== "quick") for (const l of lengths(4, 1, 3)) out.push([g, l]);
    }
    return out;
  },
  run(sx: any) {
    const [g, lens] = sx.case;
    const t = TREES[g];
    const args = tokens(sx, lens);
    noOddBundles(sx, args);
    const e = ref(sx, t.globals, t.cmds, [], args);
    const r = parse(realTree(t), args) as any;
    sx.observe("ok", r.success);
    if (r.success) sx.observe("value", r.value);
    if (!e.ok) {
      sx.assume(!e.open);
      sx.assert(!r.success, "a command line is accepted although: " + e.why);
      sx.cover("rejected: " + e.why);
      return;
    }
    sx.cover("dispatched");
    if (g === "nested") sx.cover("nested");
    if (args.length === 1 && lens[0] === 1 && g === "plain") sx.cover("alias");
    sx.assert(r.success, "a command line that names a command correctly is rejected");
    sx.assert(sx.eq(r.value, t.globals.length ? { ...e.g, c: e.c } : e.c), "the command line is given to the wrong command or with the wrong values");
  },
};
