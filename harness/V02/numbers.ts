import { parseTwice } from "../_lib/again.ts";
import { choice } from "@optique/core/valueparser";

const SETS: number[][] = [[1, 2, 10], [0.5, -5, 100, 1.25], [0, 1], [-0, 1], [0, -0], [1e21, 1e-7, 3], [8080, 443, 8080], [-1.5e-9, 12]];
const PLAIN = [["0", "9"], "+", "-", "."];
/** sign, integer digits without leading zeros, fraction digits without trailing zeros (positional notation) */
function norm(sx: any, s: string, e: number): string | null {
  let neg = false, t = s;
  if (t[0] === "-") { neg = true; t = t.slice(1); } else if (t[0] === "+") t = t.slice(1);
  const dot = t.indexOf(".");
  let a = dot < 0 ? t : t.slice(0, dot), b = dot < 0 ? "" : t.slice(dot + 1);
  if (a.length + b.length === 0 || b.includes(".")) return null;
  for (const q of [a, b]) for (let i = 0; i < q.length; i++) if (!sx.is(sx.charIn(q[i], [["0", "9"]]))) return null;
  for (; e > 0; e--) { a += b.length > 0 ? b[0] : "0"; b = b.slice(1); }
  for (; e < 0; e++) { b = (a.length > 0 ? a[a.length - 1] : "0") + b; a = a.slice(0, -1); }
  while (a.length > 0 && a[0] === "0") a = a.slice(1);
  while (b.length > 0 && b[b.length - 1] === "0") b = b.slice(0, -1);
  return (neg ? "-" : "") + a + "." + b;
}
const plain = (v: number) => {
  if (Object.is(v, -0)) return "-.";
  const [m, e] = String(v).split("e");
  return norm({ is: (x: any) => x, charIn: () => true }, m, Number(e ?? 0))!;
};
export default {
  name: "numbers",
  bounds: "8 lists of number choices (integers, fractions, 0 and -0, exponents); every text of 0-5 (thorough: 0-6) characters of digits, sign, point; and scientific spellings with mantissas of 1-3 of these characters and 7 exponent forms (two digits, signed, symbolic last digit)",
  covers: ["same number", "not a choice", "zero spelt with a sign", "scientific", "canonical text"],
  concretizeCap: 300,
  cases(tier: string) {
    const out: any[] = [];
    const top = tier === "quick" ? 5 : 6;
    for (let i = 0; i < SETS.length; i++) {
      for (let n = 0; n <= top; n++) out.push([i, "any", n]);
          }
    for (const t of tier === "quick" ? ["&", "&.", "&&", "#.#"] : ["&", "&&", "&&&", "#.##", "##.#"]) for (const x of ["2?", "+2?", "-?", "-0?", "-1?", "21", "-10"]) for (const i of [0, 5, 7]) out.push([i, t, x]);
    for (const t of ["1?0000000000000000000", "10000000000000000000??", "100000000000000000000&", "1000000000000000000000&&", "0.000000&&", ".000000&&", "-0.0000000015&", "0000&&"]) for (const i of [5, 7, 2]) out.push([i, "long", t]);
    return out;
  },
  run(sx: any) {
    const [i, kind, arg] = sx.case;
    const list = SETS[i];
    let s: string, m: string, x: string | null = null;
    if (kind === "any") s = m = sx.str("s", { len: arg, chars: PLAIN });
    else if (kind === "long") {
      const at: any = {};
      for (let k = 0; k < arg.length; k++) at[k] = arg[k] === "?" ? [["0", "9"]] : arg[k] === "&" ? PLAIN : arg[k];
      s = m = sx.str("s", { len: arg.length, at });
    } else {
      const mt: any = {};
      for (let k = 0; k < kind.length; k++) mt[k] = kind[k] === "#" ? [["0", "9"]] : kind[k] === "&" ? PLAIN : kind[k];
      m = sx.str("m", { len: kind.length, at: mt });
      const at: any = {};
      for (let k = 0; k < arg.length; k++) at[k] = arg[k] === "?" ? [["0", "9"]] : arg[k];
      x = sx.str("x", { len: arg.length, at });
      s = m + "e" + x;
    }
    const vp = choice(list);
    const r: any = parseTwice(sx, vp, s);
    sx.observe("ok", r.success);
    let e = 0;
    if (x !== null) {
      const d = Number(sx.decimal(x.replace(/^[+-]/, "")));
      e = sx.concrete(d) * (x[0] === "-" ? -1 : 1);
    }
    const q = norm(sx, m, e);
    let want: number | null = null;
    if (q !== null) {
      for (const v of list) {
        // scientific notation is for choices whose own text is scientific
        if (x !== null && !/e/.test(String(v))) continue;
        if (want === null && sx.is(sx.eq(plain(v), q))) want = v;
      }
      // a zero with another sign is the same number unless both zeros are listed
      if (want === null && x === null && (sx.is(sx.eq(q, ".")) || sx.is(sx.eq(q, "-.")))) {
        const z = list.filter((v) => v === 0);
        if (z.length === 1 && Object.is(z[0], 0)) { want = z[0]; sx.cover("zero spelt with a sign"); }
      }
    }
    if (want === null) {
      sx.cover("not a choice");
      sx.assert(!r.success, "a text that is none of the numbers is accepted");
    } else {
      sx.cover("same number");
      if (x !== null) sx.cover("scientific");
      sx.assert(r.success, "a listed number is rejected");
      const v = sx.concrete(r.value);
      sx.assert(Object.is(v, want), "a number is taken for another one");
      const back: any = vp.parse(vp.format(v));
      sx.assert(back.success && Object.is(back.value, v), "the text of a choice does not parse back");
    }
    if (kind === "any") {
      const got = [...vp.suggest!(s) as any];
      const texts = [...new Set(list.map((v) => Object.is(v, -0) ? "-0" : String(v)))];
      const wants = texts.filter((c) => c.length >= s.length && sx.is(sx.eq(c.slice(0, s.length), s)));
      sx.assert(got.length === wants.length && got.every((g: any, k: number) => g.text === wants[k]), "suggests other than the numbers with the given prefix");
      if (got.length > 0) sx.cover("canonical text");
    }
  },
};
