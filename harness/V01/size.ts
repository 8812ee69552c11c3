import { parseTwice } from "../_lib/again.ts";
import { fileSize } from "@optique/core/valueparser";
const SI = ["b", "kb", "mb", "gb", "tb", "pb", "eb"];
const IEC = ["b", "kib", "mib", "gib", "tib", "pib", "eib"];
const pow = (b: bigint, n: number) => { let v = 1n; for (let i = 0; i < n; i++) v *= b; return v; };
function unitOf(u: string, si: boolean): bigint | null {
  for (let i = 0; i < 7; i++) if (u === SI[i]) return pow(si ? 1024n : 1000n, i);
  for (let i = 1; i < 7; i++) if (u === IEC[i]) return pow(1024n, i);
  return null;
}
// start, step and count of the values to format: whole bytes, hundredths of each decimal
// unit, quarters of each binary unit, and the neighbourhood of inexact products
const RANGES: [bigint, bigint, number?][] = [
  [0n, 1n, 3000], [0n, 10n, 60000], [0n, 2n ** 8n, 2000], [0n, 2n ** 48n, 31], [5640758533281500n, 1n, 100], [1048000n, 1n, 1200], [999900n, 1n, 200], [1073741000n, 1n, 900], [1000000000n, 10000n, 50],
];
export default {
  name: "size",
  bounds: "fileSize() for both result types, with and without siAsBinary, defaultUnit and allowNegative; numbers of up to 4 (thorough: 6) characters followed by a unit of 0-3 or 11 printable characters; formatting of 9 ranges of up to 60000 values around every unit",
  assumptions: [],
  concretizeCap: 120,
  covers: ["ok", "unit", "fraction", "formatted"],
  cases(tier: string) {
    const out: any[] = [];
    for (let o = 0; o < 16; o++) for (const u of [0, 1, 2, 3]) {
      for (const n of tier === "quick" ? (u < 2 ? [1, 2, 3] : u < 3 || o % 5 === 0 ? [1] : []) : [1, 2, 3, 4, 5]) out.push(["parse", o, n, u]);
    }
    for (let o = 0; o < 16; o++) out.push(["parse", o, 1, 11]);
    for (let o = 0; o < 8; o++) for (let k = 0; k < RANGES.length; k++) out.push(["format", o, k, 0]);
    return out;
  },
  run(sx: any) {
    const [what, o, n, ul] = sx.case;
    const big = o % 2 === 1, si = (o >> 1) % 2 === 1, neg = (o >> 2) % 2 === 1, dflt = o >> 3 ? "KB" : undefined;
    const p: any = fileSize({ type: big ? "bigint" : "number", siAsBinary: si, allowNegative: neg, defaultUnit: dflt } as any);
    if (what === "format") {
      const a = sx.int("a", 0, RANGES[n][2] ?? 500);
      let v = RANGES[n][0] + BigInt(a) * RANGES[n][1];
      if (neg) v = -v;
      const s = p.format(big ? v : Number(v));
      sx.cover("formatted");
      const r = parseTwice(sx, p, s);
      sx.observe("r", r.success ? r.value : false);
      sx.assert(r.success && BigInt(r.value) === v, "a formatted size does not parse back to itself");
      return;
    }
    const num = sx.str("n", { len: n, chars: [["0", "9"], "+", "-", "."] });
    const unit = sx.str("u", { len: ul, chars: ul > 3 ? [["a", "z"]] : [[0x20, 0x7e]] });
    const r = parseTwice(sx, p, num + unit);
    sx.observe("r", r.success ? r.value : false);
    // the number: sign? digits [. digits*] | sign? . digits
    let i = 0, digits = "", frac = 0, dots = 0;
    const minus = num[0] === "-";
    if (minus || num[0] === "+") i = 1;
    for (; i < n; i++) {
      if (num[i] === ".") { dots++; continue; }
      if (!sx.is(sx.charIn(num[i], [["0", "9"]]))) break;
      digits += num[i];
      if (dots) frac++;
    }
    const numeric = i === n && dots < 2 && digits.length > 0;
    let u: string | null = unit.trim().toLowerCase();
    let ok = numeric;
    let continued = false; // the "unit" string begins with more of the number
    if (unit.length && !numeric) continued = true;
    if (unit.length && sx.is(sx.charIn(unit[0], "0123456789."))) continued = true;
    if (continued) return; // covered by the other lengths
    let mult: bigint | null = null;
    if (ok) {
      if (u === "") { mult = dflt ? unitOf("kb", si) : null; }
      else { mult = unitOf(u!, si); if (mult !== null) sx.cover("unit"); }
      if (mult === null) ok = false;
    }
    if (!ok) {
      sx.assert(!r.success, "a string that is not a size is accepted");
      return;
    }
    const scale = pow(10n, frac);
    const total = sx.decimal(digits) * mult! * (minus ? -1n : 1n);
    if (frac) sx.cover("fraction");
    const exact = total % scale === 0n;
    const bytes = total / scale;
    const want = sx.and(exact, neg || bytes >= 0n, big || (bytes <= 9007199254740991n && bytes >= -9007199254740991n));
    sx.assert(sx.iff(r.success, want), "a size is rejected although exact, or accepted although not a whole number of bytes or negative");
    if (r.success) { sx.cover("ok"); sx.assert(BigInt(r.value) === bytes, "the size is not the number of bytes that was typed"); }
  },
};
