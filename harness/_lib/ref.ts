// An independent reference interpreter of the documented command-line
// conventions, for flat grammars.  It is executed symbolically next to the
// real parser and the two results are compared.
import { object, tuple } from "@optique/core/constructs";
import { multiple, optional, withDefault } from "@optique/core/modifiers";
import { argument, flag, negatableFlag, option } from "@optique/core/primitives";
import { integer, string } from "@optique/core/valueparser";

export interface Field {
  key: string;
  kind: "bool" | "flag" | "neg" | "opt" | "arg";
  names?: string[];
  neg?: string[];
  vp?: "str" | "int";
  mod?: "optional" | "default" | "multiple";
  min?: number;
  max?: number;
}
const vpOf = (f: Field) => f.vp === "int" ? integer() : string();
export const DEFAULT = "\u0000default";

export function realField(f: Field): any {
  let p: any;
  if (f.kind === "bool") p = (option as any)(...f.names!);
  else if (f.kind === "flag") p = (flag as any)(...f.names!);
  else if (f.kind === "neg") p = negatableFlag({ positive: f.names as any, negative: f.neg as any });
  else if (f.kind === "opt") p = (option as any)(...f.names!, vpOf(f));
  else p = argument(vpOf(f) as any);
  if (f.mod === "optional") p = optional(p);
  else if (f.mod === "default") p = withDefault(p, DEFAULT as any);
  else if (f.mod === "multiple") {
    p = multiple(p, { ...(f.min !== undefined && { min: f.min }), ...(f.max !== undefined && { max: f.max }) });
  }
  return p;
}
export function realObject(fields: Field[]): any {
  const o: any = {};
  for (const f of fields) o[f.key] = realField(f);
  return object(o);
}
export function realTuple(fields: Field[]): any {
  return tuple(fields.map(realField) as any);
}

const isIntText = (sx: any, s: string) => sx.test(/^-?\d+$/, s);
function value(sx: any, f: Field, raw: string): { ok: boolean; value?: any } {
  if (f.vp === "int") {
    if (!sx.is(isIntText(sx, raw))) return { ok: false };
    return { ok: true, value: Number(raw) };
  }
  return { ok: true, value: raw };
}
const isShort = (n: string) => n.length === 2 && n[0] === "-" && n[1] !== "-";

/** What the documented conventions say `tokens` mean. */
export function reference(sx: any, fields: Field[], tokens: string[]): { ok: false; why: string; open?: boolean } | { ok: true; value: any } {
  const got: Record<string, any[]> = {};
  for (const f of fields) got[f.key] = [];
  const full = (f: Field) => f.mod === "multiple" ? got[f.key].length >= (f.max ?? Infinity) : got[f.key].length >= 1;
  const argFields = fields.filter((f) => f.kind === "arg");
  const named = fields.filter((f) => f.kind !== "arg");
  let bad: string | null = null; // a value was refused; reported at the end
  let terminated = false;
  let i = 0;
  const take = (f: Field, raw: string): boolean => {
    if (full(f)) return false;
    const v = value(sx, f, raw);
    if (!v.ok) bad = "value refused";
    got[f.key].push(v.value);
    return true;
  };
  const set = (f: Field, v: boolean): boolean => {
    if (full(f)) return false;
    got[f.key].push(v);
    return true;
  };
  const freeArg = () => argFields.some((f) => !full(f));
  next: while (i < tokens.length) {
    const tok = tokens[i];
    if (!terminated) {
      if (sx.is(tok === "--")) {
        terminated = true;
        i++;
        continue;
      }
      // the whole token is an option name
      for (const f of named) {
        for (const [list, v] of [[f.names ?? [], true], [f.neg ?? [], false]] as const) {
          for (const n of list) {
            if (!sx.is(tok === n)) continue;
            if (f.kind !== "opt") {
              if (!set(f, v)) return { ok: false, why: "repeated" };
              i++;
              continue next;
            }
            if (i + 1 >= tokens.length) return { ok: false, why: "no value" };
            if (!take(f, tokens[i + 1])) return { ok: false, why: "repeated", open: n[0] === "/" && freeArg() };
            i += 2;
            continue next;
          }
        }
      }
      // name and value joined in one token
      for (const f of named) {
        for (const n of [...(f.names ?? []), ...(f.neg ?? [])]) {
          if (isShort(n)) continue;
          const sep = n[0] === "/" ? ":" : "=";
          if (!sx.is(tok.startsWith(n + sep))) continue;
          if (f.kind !== "opt") return { ok: false, why: "flag with a value", open: n[0] === "/" && freeArg() };
          if (!take(f, tok.slice(n.length + 1))) return { ok: false, why: "repeated", open: n[0] === "/" && freeArg() };
          i++;
          continue next;
        }
      }
      // a bundle of short flags
      if (tok.length > 2 && sx.is(tok[0] === "-")) {
        let k = 1;
        const sets: [Field, boolean][] = [];
        chars: for (; k < tok.length; k++) {
          for (const f of named) {
            if (f.kind === "opt") continue;
            for (const [list, v] of [[f.names ?? [], true], [f.neg ?? [], false]] as const) {
              for (const n of list) {
                if (isShort(n) && sx.is(tok[k] === n[1])) {
                  sets.push([f, v]);
                  continue chars;
                }
              }
            }
          }
          break;
        }
        if (k === tok.length) {
          for (const [f, v] of sets) if (!set(f, v)) return { ok: false, why: "repeated" };
          i++;
          continue next;
        }
        if (k > 1) {
          // the last letter of a bundle may be an option that takes the next token
          if (k === tok.length - 1) {
            for (const f of named) {
              if (f.kind !== "opt") continue;
              for (const n of f.names!) {
                if (isShort(n) && sx.is(tok[k] === n[1])) {
                  for (const [g, v] of sets) if (!set(g, v)) return { ok: false, why: "repeated" };
                  if (i + 1 >= tokens.length) return { ok: false, why: "no value" };
                  if (!take(f, tokens[i + 1])) return { ok: false, why: "repeated" };
                  i += 2;
                  continue next;
                }
              }
            }
          }
          // Left open: a remainder that is itself a longer name, and a remainder
          // the positional parser does not recognise as an option.
          const rest = "-" + tok.slice(k);
          let open = freeArg() && !sx.is(sx.test(/^--?[a-z0-9-]+$/i, rest));
          if (k === 2 && sx.is(tok[k] === "=")) return { ok: false, why: "short name with a joined value" };
          for (const f of named) for (const n of f.names ?? []) if (!isShort(n) && n[1] !== "-" && sx.is(rest.startsWith(n))) open = true;
          return { ok: false, why: "bad bundle", open };
        }
      }
      // a short option's name joined with a value
      for (const f of named) {
        for (const n of [...(f.names ?? []), ...(f.neg ?? [])]) {
          if (isShort(n) && sx.is(tok.startsWith(n + "="))) return { ok: false, why: "short name with a joined value" };
        }
      }
      if (sx.is(sx.test(/^--?[a-z0-9-]+$/i, tok))) return { ok: false, why: "unknown option" };
    }
    // a positional value
    for (const f of argFields) {
      if (full(f)) continue;
      take(f, tok);
      i++;
      continue next;
    }
    return { ok: false, why: "unexpected token" };
  }
  if (bad) return { ok: false, why: bad };
  const out: any = {};
  for (const f of fields) {
    const g = got[f.key];
    if (f.mod === "multiple") {
      if (g.length < (f.min ?? 0)) return { ok: false, why: "too few" };
      out[f.key] = g;
    } else if (g.length) out[f.key] = g[0];
    else if (f.mod === "optional") out[f.key] = undefined;
    else if (f.mod === "default") out[f.key] = DEFAULT;
    else if (f.kind === "bool") out[f.key] = false;
    else return { ok: false, why: "missing" };
  }
  return { ok: true, value: out };
}

/** Compare the real result with the reference on the same tokens. */
export function compare(sx: any, r: any, ref: any, label = "") {
  sx.observe("ok" + label, r.success);
  if (r.success) sx.observe("value" + label, r.value);
  if (ref.ok) {
    sx.assert(r.success, "a command line the conventions allow is rejected");
    sx.assert(sx.eq(r.value, ref.value), "the parsed value is not what the tokens say");
    sx.cover("accepted");
  } else {
    sx.assume(!ref.open);
    sx.assert(!r.success, "a command line is accepted although: " + ref.why);
    sx.cover("rejected: " + ref.why);
  }
}
export const tokens = (sx: any, lens: number[], chars: any = [[0x20, 0x7e]]): string[] =>
  lens.map((n, i) => sx.str("t" + i, { len: n, chars }));
/** all tuples of lengths, each in [lo, hi], of exactly k tokens */
export function lengths(k: number, lo: number, hi: number): number[][] {
  if (k === 0) return [[]];
  const out: number[][] = [];
  for (const r of lengths(k - 1, lo, hi)) for (let n = lo; n <= hi; n++) out.push([...r, n]);
  return out;
}

/** Leaves out bundles of short names with characters no option name here has:
 * what becomes of the rest of such a bundle is not documented. */
export function noOddBundles(sx: any, args: string[]) {
  for (const t of args) {
    if (t.length > 2) sx.assume(sx.or(t[0] !== "-", t[1] === "-", sx.test(/^-[A-Za-z0-9]+$/, t)));
  }
}
