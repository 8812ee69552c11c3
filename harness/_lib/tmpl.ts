// Input templates: `?` any character, `#` digit, `%` hexadecimal digit, `$` ASCII letter, `&` printable
// ASCII; any other character stands for itself.
const HOLES: Record<string, any> = {
  "?": [[0x00, 0xd7ff], [0xe000, 0xffff]],
  "#": [["0", "9"]],
  "%": [["0", "9"], ["a", "f"], ["A", "F"]],
  "$": [["a", "z"], ["A", "Z"]],
  "&": [[0x20, 0x7e]],
};
export function fill(sx: any, name: string, template: string): string {
  const at: Record<number, any> = {};
  for (let i = 0; i < template.length; i++) at[i] = HOLES[template[i]] ?? template[i];
  return sx.str(name, { len: template.length, at });
}
export const isDigit = (sx: any, c: string) => sx.is(sx.charIn(c, [["0", "9"]]));
export const isHex = (sx: any, c: string) => sx.is(sx.charIn(c, [["0", "9"], ["a", "f"], ["A", "F"]]));
export const isAlnum = (sx: any, c: string) => sx.is(sx.charIn(c, [["0", "9"], ["a", "z"], ["A", "Z"]]));
export function allDigits(sx: any, s: string) {
  if (s.length === 0) return false;
  for (let i = 0; i < s.length; i++) if (!isDigit(sx, s[i])) return false;
  return true;
}
/** the four octets of a strict dotted-decimal address, or null */
export function octetsOf(sx: any, s: string): number[] | null {
  const parts = s.split(".");
  if (parts.length !== 4) return null;
  const out: number[] = [];
  for (const p of parts) {
    if (p.length > 3 || !allDigits(sx, p)) return null;
    if (p.length > 1 && p[0] === "0") return null;
    const n = Number(sx.decimal(p));
    if (n > 255) return null;
    out.push(n);
  }
  return out;
}
function hexOf(sx: any, s: string): number | null {
  if (s.length < 1 || s.length > 4) return null;
  for (let i = 0; i < s.length; i++) if (!isHex(sx, s[i])) return null;
  return parseInt(s, 16);
}
/** the eight groups of an IPv6 address (RFC 4291 text forms), or null */
export function groupsOf(sx: any, s: string): number[] | null {
  const list = (t: string, last: boolean): number[] | null => {
    if (t === "") return [];
    const out: number[] = [];
    const ps = t.split(":");
    for (let i = 0; i < ps.length; i++) {
      if (last && i === ps.length - 1 && ps[i].includes(".")) {
        const o = octetsOf(sx, ps[i]);
        if (o === null) return null;
        out.push(o[0] * 256 + o[1], o[2] * 256 + o[3]);
        continue;
      }
      const g = hexOf(sx, ps[i]);
      if (g === null) return null;
      out.push(g);
    }
    return out;
  };
  const k = s.indexOf("::");
  if (k < 0) {
    const g = list(s, true);
    return g !== null && g.length === 8 ? g : null;
  }
  const rest = s.slice(k + 2);
  if (rest.includes("::")) return null;
  const a = list(s.slice(0, k), false), b = list(rest, true);
  if (a === null || b === null || a.length + b.length > 7) return null;
  return [...a, ...Array(8 - a.length - b.length).fill(0), ...b];
}
/** RFC 5952: lower case, no leading zeros, the leftmost longest run of two or more zeros as `::` */
export function canonical6(sx: any, g: number[]): string {
  let best = -1, len = 1;
  for (let i = 0; i < 8;) {
    let j = i;
    while (j < 8 && g[j] === 0) j++;
    if (j - i > len) { best = i; len = j - i; }
    i = j + 1;
  }
  const hex = (xs: number[]) => xs.map((x) => x.toString(16)).join(":");
  return best < 0 ? hex(g) : hex(g.slice(0, best)) + "::" + hex(g.slice(best + len));
}
