// A reader of .env text written from docs/integrations/env.md. `s` may be
// symbolic. Gives the assignments in order, or undefined for text that is not
// a list of assignments.
export type Look = (key: string) => string;
const isOne = (sx: any, s: string, i: number, cs: string) => i < s.length && sx.is(sx.charIn(s[i], cs));
const NAME0 = [["a", "z"], ["A", "Z"], ["_", "_"]] as any, NAME = [...NAME0, ["0", "9"]] as any;
const nameAt = (sx: any, s: string, i: number) => {
  if (i >= s.length || !sx.is(sx.charIn(s[i], NAME0))) return i;
  let j = i + 1;
  while (j < s.length && sx.is(sx.charIn(s[j], NAME))) j++;
  return j;
};
// the value of the text between quotation marks, or of a bare value; undefined: malformed
export function expand(sx: any, raw: string, escapes: boolean, look: Look, subst: Look): string | undefined {
  let out = "", i = 0;
  const find = (from: number, c: string) => { for (let k = from; k < raw.length; k++) if (sx.is(raw[k] === c)) return k; return -1; };
  while (i < raw.length) {
    if (escapes && isOne(sx, raw, i, "\\")) {
      if (i + 1 >= raw.length) { out += "\\"; break; }
      const c = raw[i + 1];
      out += sx.is(c === "n") ? "\n" : sx.is(c === "r") ? "\r" : sx.is(c === "t") ? "\t" : c;
      i += 2; continue;
    }
    if (isOne(sx, raw, i, "`")) {
      const e = find(i + 1, "`");
      if (e < 0) return undefined;
      out += subst(raw.slice(i + 1, e)); i = e + 1; continue;
    }
    if (isOne(sx, raw, i, "$")) {
      if (isOne(sx, raw, i + 1, "({")) {
        const p = isOne(sx, raw, i + 1, "(");
        const e = find(i + 2, p ? ")" : "}");
        if (e < 0) return undefined;
        out += (p ? subst : look)(raw.slice(i + 2, e)); i = e + 1; continue;
      }
      const e = nameAt(sx, raw, i + 1);
      if (e > i + 1) { out += look(raw.slice(i + 1, e)); i = e; continue; }
    }
    out += raw[i++];
  }
  return out;
}
export function readEnv(sx: any, s: string, look: (key: string, sofar: [string, string][]) => string, subst: Look): [string, string][] | undefined {
  const got: [string, string][] = [];
  const n = s.length;
  let i = n > 0 && isOne(sx, s, 0, "\ufeff") ? 1 : 0;
  const blank = (k: number) => isOne(sx, s, k, " \t"), nl = (k: number) => isOne(sx, s, k, "\r\n");
  const skip = () => { while (blank(i)) i++; };
  const toEol = () => { while (i < n && !nl(i)) i++; };
  while (i < n) {
    skip();
    if (i >= n) break;
    if (nl(i)) { i++; continue; }
    if (isOne(sx, s, i, "#")) { toEol(); continue; }
    // the word "export" before a name
    const w = nameAt(sx, s, i);
    if (w - i === 6 && sx.is(sx.eq(s.slice(i, w), "export")) && w < n && (blank(w) || nl(w))) { i = w; skip(); }
    const e = nameAt(sx, s, i);
    if (e === i) return undefined;
    const key = s.slice(i, e);
    i = e; skip();
    if (!isOne(sx, s, i, "=")) return undefined;
    i++; skip();
    let value: string | undefined;
    const lk = (k: string) => look(k, got);
    if (isOne(sx, s, i, "'")) {
      let j = i + 1;
      while (j < n && !isOne(sx, s, j, "'")) j++;
      if (j >= n) return undefined;
      value = s.slice(i + 1, j); i = j + 1;
    } else if (isOne(sx, s, i, '"')) {
      let j = i + 1;
      while (j < n && !isOne(sx, s, j, '"')) j += isOne(sx, s, j, "\\") ? 2 : 1;
      if (j >= n) return undefined;
      value = expand(sx, s.slice(i + 1, j), true, lk, subst); i = j + 1;
    } else {
      const b = i;
      while (i < n && !nl(i) && !(isOne(sx, s, i, "#") && (i === b || blank(i - 1)))) i++;
      let t = i;
      while (t > b && blank(t - 1)) t--;
      value = expand(sx, s.slice(b, t), false, lk, subst);
    }
    if (value === undefined) return undefined;
    got.push([key, value]);
    skip();
    if (isOne(sx, s, i, "#")) toEol();
    else if (i < n && !nl(i)) return undefined;
  }
  return got;
}
