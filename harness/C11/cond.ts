import { conditional, merge, object } from "@optique/core/constructs";
import { parse } from "@optique/core/parser";
import { option } from "@optique/core/primitives";
import { optional, withDefault } from "@optique/core/modifiers";
import { choice } from "@optique/core/valueparser";
import { DEFAULT, type Field, lengths, noOddBundles, realField, realObject, reference, tokens } from "../_lib/ref.ts";

const NAMES = ["-r", "--r"];
const O: Field = { key: "o", kind: "opt", names: ["-o"], vp: "str" };
const OI: Field = { key: "o", kind: "opt", names: ["-o"], vp: "int", mod: "optional" };
const P: Field = { key: "p", kind: "bool", names: ["-p"] };
const F: Field = { key: "f", kind: "flag", names: ["-f"] };
const X: Field = { key: "x", kind: "arg", vp: "str", mod: "multiple" };
const Y: Field = { key: "y", kind: "arg", vp: "str", mod: "optional" };
const G: Field = { key: "g", kind: "bool", names: ["-g"] };
interface Form { branches: Record<string, Field[]>; dflt?: Field[]; globals?: Field[]; wrap?: "merge"; disc?: "default" }
const FORMS: Record<string, Form> = {
  plain: { branches: { j: [O], h: [P, OI] } },
  overlap: { branches: { j: [O, P], jj: [OI, X], k: [] } },
  dflt: { branches: { j: [O], h: [P] }, dflt: [F] },
  dfltOpen: { branches: { j: [O], h: [X] }, dflt: [P, Y] },
  inObject: { branches: { j: [O], h: [P] }, globals: [G, Y] },
  inObjectDflt: { branches: { j: [P], h: [X] }, dflt: [OI], globals: [G] },
  discDefault: { branches: { j: [P], h: [OI] }, disc: "default" },
  discDefaultG: { branches: { j: [X], h: [P] }, disc: "default", globals: [G] },
};
function real(f: Form): any {
  let d: any = (option as any)(...NAMES, choice(Object.keys(f.branches)));
  if (f.disc === "default") d = withDefault(d, Object.keys(f.branches)[0]);
  const b: any = {};
  for (const k of Object.keys(f.branches)) b[k] = realObject(f.branches[k]);
  const c = f.dflt ? (conditional as any)(d, b, realObject(f.dflt)) : (conditional as any)(d, b);
  if (!f.globals) return c;
  const o: any = {};
  for (const g of f.globals) o[g.key] = realField(g);
  return object({ ...o, c });
}
function model(sx: any, f: Form, v: string | undefined, args: string[]): any {
  const fs = v === undefined ? f.dflt! : f.branches[v];
  const globals = f.globals ?? [];
  const D: Field = { key: "\u0000d", kind: "opt", names: NAMES, vp: "str", mod: "optional" };
  const r: any = reference(sx, [D, ...fs, ...globals], args);
  if (!r.ok) return r;
  const d = r.value[D.key];
  const given = d !== undefined;
  const eff = given ? d : f.disc === "default" ? Object.keys(f.branches)[0] : undefined;
  if (v === undefined ? eff !== undefined : eff === undefined || !sx.is(eff === v)) return { ok: false, why: "another branch" };
  const branch: any = {}, g: any = {};
  for (const x of fs) branch[x.key] = r.value[x.key];
  for (const x of globals) g[x.key] = r.value[x.key];
  return { ok: true, given, branch, g };
}
// the discriminator comes before anything of its branch
function discFirst(sx: any, f: Form, args: string[]): boolean {
  for (const t of args) {
    if (sx.is(sx.or(t === "-r", t === "--r", t.startsWith("--r=")))) return true;
    if (f.globals && sx.is(t === "-g")) continue;
    return false;
  }
  return false;
}
export default {
  name: "cond",
  bounds: "8 conditional grammars of 2-3 branches (with and without a default branch, a defaulted discriminator, shared names, other fields around); command lines of 0-4 (thorough: 5) tokens of 1-2 (3) printable ASCII characters",
  assumptions: ["a command line whose discriminator comes after its branch's own tokens may be rejected", "single-dash tokens of three or more characters are letters and digits only"],
  covers: ["branch chosen", "default branch", "rejected", "discriminator defaulted"],
  cases: (tier: string) => {
    const out: any[] = [];
    for (const f of Object.keys(FORMS)) for (let k = 0; k <= (tier === "quick" ? 4 : 5); k++) {
      const ls = lengths(k, 1, tier === "quick" ? 2 : k <= 3 ? 4 : k === 4 ? 3 : 2);
      ls.forEach((l, i) => { if (k < 4 || tier === "quick" || i % 3 === 0) out.push([f, l]); });
    }
    return out;
  },
  run(sx: any) {
    const [fname, lens] = sx.case as [string, number[]];
    const f = FORMS[fname];
    const args = tokens(sx, lens);
    noOddBundles(sx, args);
    const r: any = parse(real(f), args);
    sx.observe("ok", r.success);
    if (r.success) {
      sx.observe("value", r.value);
      const [v, branch] = f.globals ? r.value.c : r.value;
      const keys = Object.keys(f.branches);
      const key = v === undefined ? undefined : keys.find((k) => sx.is(v === k));
      sx.assert(v === undefined ? f.dflt !== undefined : key !== undefined, "the result names a branch that does not exist");
      const m = model(sx, f, key, args);
      if (!m.ok) sx.assume(!m.open);
      const again = !m.ok && args.some((t, i) => i > 0 && sx.is(t.startsWith("--r=")));
      sx.assert(m.ok, "a command line is accepted although the branch its discriminator names does not accept it" + (again ? " (the discriminator repeated with a joined value)" : ""));
      sx.assert(sx.eq(branch, m.branch), "the branch's value is not what the tokens say");
      if (f.globals) for (const g of f.globals) sx.assert(sx.eq(r.value[g.key], m.g[g.key]), "a field beside the conditional has another value");
      sx.cover(v === undefined ? "default branch" : m.given ? "branch chosen" : "discriminator defaulted");
    } else {
      sx.cover("rejected");
      for (const v of [...Object.keys(f.branches), ...(f.dflt ? [undefined] : [])]) {
        const m = model(sx, f, v, args);
        if (!m.ok) continue;
        if (m.given && !discFirst(sx, f, args)) continue;
        // nothing left to parse: the empty grammar takes no `--`
        if (v !== undefined && !f.branches[v].length && args.some((t) => sx.is(t === "--"))) continue;
        sx.fail(v === undefined ? "a command line of the default branch is rejected" : "a command line the chosen branch accepts is rejected");
      }
    }
  },
};
