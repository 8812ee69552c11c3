import { parseTwice } from "../_lib/again.ts";
import { message } from "@optique/core/message";
import { float } from "@optique/core/valueparser";
const e = message`no`;
/** decimal floating-point grammar: sign? (digits [. digits*] | . digits) ([eE] sign? digits)? */
function numeral(sx: any, s: string) {
  let i = 0;
  const dig = () => { let k = 0; while (i < s.length && sx.is(sx.charIn(s[i], [["0", "9"]]))) { i++; k++; } return k; };
  if (i < s.length && sx.is(sx.charIn(s[i], "+-"))) i++;
  const a = dig();
  let b = 0;
  if (i < s.length && s[i] === ".") { i++; b = dig(); }
  if (a + b === 0) return false;
  if (i < s.length && sx.is(sx.charIn(s[i], "eE"))) {
    i++;
    if (i < s.length && sx.is(sx.charIn(s[i], "+-"))) i++;
    if (dig() === 0) return false;
  }
  return i === s.length;
}
export default {
  name: "float",
  bounds: "float() with none, one or both symbolic bounds (multiples of 1/4 up to 60); strings of 0-4 (thorough: 5) BMP characters, and the NaN and Infinity words of 3, 8 and 9 letters",
  assumptions: ["the number a numeral denotes is the one ECMAScript's Number() gives"],
  covers: ["in", "out", "word"],
  concretizeCap: 400,
  cases(tier: string) {
    const out: any[] = [];
    for (const bounds of ["none", "min", "max", "both"]) for (const words of [0, 1, 2, 3]) {
      for (let n = 0; n <= (tier === "quick" ? 2 : 4); n++) out.push([bounds, words, n, false]);
      for (const n of [3, 8, 9]) out.push([bounds, words, n, true]);
    }
    for (const bounds of ["none", "both"]) for (const words of [0, 3]) {
      out.push([bounds, words, 3, false]);
      if (tier !== "quick" || bounds === "none" && words === 0) out.push([bounds, words, 4, "n"]);
      if (tier !== "quick" && bounds === "none") out.push([bounds, words, 5, "n"]);
    }
    return out;
  },
  run(sx: any) {
    const [bounds, words, n, word] = sx.case;
    const s = sx.str("s", { len: n, chars: word === "n" ? [["0", "9"], "+", "-", ".", "e"] : word ? "nNaAiIfFtTyY+-" : undefined });
    const min = bounds === "min" || bounds === "both" ? sx.dec("min", -240, 240, 4) : undefined;
    const max = bounds === "max" || bounds === "both" ? sx.dec("max", -240, 240, 4) : undefined;
    if (min !== undefined && max !== undefined) sx.assume(min <= max);
    const p: any = float({ min, max, allowNaN: words % 2 === 1, allowInfinity: words > 1, errors: { invalidNumber: e, belowMinimum: e, aboveMaximum: e } });
    const r = parseTwice(sx, p, s);
    sx.observe("r", r.success ? r.value : false);
    const low = s.toLowerCase();
    const nan = low === "nan", inf = low === "infinity" || low === "+infinity", ninf = low === "-infinity";
    if (nan || inf || ninf) {
      sx.cover("word");
      const ok = nan ? words % 2 === 1 : words > 1 && !(inf && max !== undefined) && !(ninf && min !== undefined);
      sx.assert(r.success === ok, "NaN or Infinity accepted without being allowed, or rejected although allowed");
      if (ok) sx.assert(nan ? Number.isNaN(r.value) : r.value === (inf ? Infinity : -Infinity), "NaN or Infinity is misread");
      return;
    }
    if (!numeral(sx, s)) {
      sx.assert(!r.success, "a string that is not a decimal numeral is accepted");
      return;
    }
    const v = Number(s);
    if (!Number.isFinite(v)) {
      sx.assert(words > 1 || !r.success, "an overflowing numeral is accepted");
      return;
    }
    const want = sx.and(min === undefined || v >= min, max === undefined || v <= max);
    sx.cover(sx.is(want) ? "in" : "out");
    sx.assert(sx.iff(r.success, want), "a value is accepted although out of bounds, or rejected although within");
    if (r.success) sx.assert(r.value === v, "the result is not the number that was typed");
  },
};
