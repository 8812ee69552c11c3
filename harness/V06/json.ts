import { parseTwice } from "../_lib/again.ts";
import { json } from "@optique/core/valueparser";

// "@" is a free character of the case's alphabet
const SHAPES: [string, string][] = [
  ...["", "@", "@@", "@@@", "@@@@"].map((s) => [s, "0-1.e[]{}\", tn"] as [string, string]),
  ["\"@@@\"", "a\"\\\n\u00e9n/u"], ["\"\\@\"", "bfnrt\"\\/uxa'"], ["\"\\u00@@\"", "0189aAfFg"], ["[@@@]", "1,[]-\"a "], ["{\"a\":@@}", "1-\"{}[] e"],
  ["{@\"a\"@:1}", "\" ',1"], ["{\"@\":1,\"@\":2}", "ab\""], ["@true@", " \tn1"], ["nul@", "lL "], ["1@@@", "0.eE+-9"], ["-@@@", "0.e+1"], ["1e@@@", "0-+3"], ["[1e3@@]", "09,]"], ["{\"a\":[1e@@@]}", "39-"], ["[[@@],@]", "1[]\",2"], ["tru@", "e1"], ["fals@@", "e "],
];
const DEEP: [string, string][] = [["@@@@@", "0-1.e[]{}\", "], ["\"@@@@\"", "a\"\\\nnu"], ["[@@@@]", "1,[]-\" "], ["{@@@@}", "\"a:1,"], ["-@@@@@", "0.e+-1"], ["[\"a\",{\"b\":@@@}]", "1[]{}\""]];
const TYPES = ["string", "number", "boolean", "null", "object", "array"];
const BAD = Symbol("bad");
/** the value a JSON text denotes (RFC 8259), or BAD; numbers as [text] */
function read(sx: any, s: string): any {
  let i = 0;
  const is = (cs: any) => i < s.length && sx.is(sx.charIn(s[i], cs));
  const ws = () => { while (is("\t\n\r ")) i++; };
  const lit = (w: string) => { for (const c of w) { if (!is(c)) throw BAD; i++; } };
  const text = () => {
    let out = "";
    i++;
    for (;;) {
      if (i >= s.length || is([["\0", "\x1f"]])) throw BAD;
      if (is("\"")) { i++; return out; }
      if (!is("\\")) { out += s[i++]; continue; }
      i++;
      if (is("u")) {
        i++;
        const h = s.slice(i, i + 4);
        if (h.length < 4) throw BAD;
        for (let k = 0; k < 4; k++, i++) if (!is([["0", "9"], ["a", "f"], ["A", "F"]])) throw BAD;
        out += String.fromCharCode(parseInt(h, 16));
        continue;
      }
      const k = [..."\"\\/bfnrt"].findIndex((c) => is(c));
      if (k < 0) throw BAD;
      out += "\"\\/\b\f\n\r\t"[k];
      i++;
    }
  };
  const digits = () => { if (!is([["0", "9"]])) throw BAD; while (is([["0", "9"]])) i++; };
  const value = (): any => {
    ws();
    let v: any;
    if (is("\"")) v = text();
    else if (is("[")) {
      v = []; i++; ws();
      if (is("]")) i++;
      else for (;;) { v.push(value()); if (is("]")) { i++; break; } if (!is(",")) throw BAD; i++; }
    } else if (is("{")) {
      const m: [string, any][] = []; i++; ws();
      if (is("}")) i++;
      else for (;;) {
        ws(); if (!is("\"")) throw BAD;
        const k = text(); ws();
        if (!is(":")) throw BAD;
        i++;
        const x = value(), at = m.findIndex((e) => sx.is(sx.eq(e[0], k)));
        if (at >= 0) m[at][1] = x; else m.push([k, x]);
        if (is("}")) { i++; break; }
        if (!is(",")) throw BAD;
        i++;
      }
      v = { m };
    } else if (is("t")) { lit("true"); v = true; } else if (is("f")) { lit("false"); v = false; } else if (is("n")) { lit("null"); v = null; } else {
      const from = i;
      if (is("-")) i++;
      if (is("0")) i++; else digits();
      if (is(".")) { i++; digits(); }
      if (is("eE")) { i++; if (is("+-")) i++; digits(); }
      v = { n: s.slice(from, i) };
    }
    ws();
    return v;
  };
  try {
    const v = value();
    return i < s.length ? BAD : v;
  } catch (e) { if (e === BAD) return BAD; throw e; }
}
const numbers = (v: any): string[] => v === null || typeof v !== "object" ? [] : Array.isArray(v) ? v.flatMap(numbers) : "m" in v ? v.m.flatMap((e: any) => numbers(e[1])) : [v.n];
function same(sx: any, a: any, b: any): any {
  if (b === null || typeof b === "boolean" || typeof b === "string") return sx.eq(a, b);
  if (Array.isArray(b)) return Array.isArray(a) && a.length === b.length && sx.and(...a.map((x: any, k: number) => same(sx, x, b[k])));
  if ("n" in b) return typeof a === "number" && sx.eq(a, Number(b.n));
  return typeof a === "object" && a !== null && !Array.isArray(a) && Object.keys(a).length === b.m.length && sx.and(...b.m.map(([k, x]: any) => same(sx, a[k], x)));
}
const kind = (v: any) => v === null ? "null" : Array.isArray(v) ? "array" : typeof v === "object" ? ("n" in v ? "number" : "object") : typeof v;
export default {
  name: "json",
  bounds: "json() with each root type and without; 22 (thorough: 28) shapes of text with 0-4 (5) free characters of JSON's own notation, escapes, nested arrays and objects and exponents that overflow",
  covers: ["accepted", "rejected", "root type", "overflow"],
  cases(tier: string) {
    const out: any[] = [];
    for (const [s, cs] of tier === "quick" ? SHAPES : [...SHAPES, ...DEEP]) out.push([s, cs]);
    return out;
  },
  run(sx: any) {
    const [shape, cs] = sx.case;
    const free = sx.str("s", { len: [...shape].filter((c) => c === "@").length, chars: cs });
    let s = "", k = 0;
    for (const c of shape) s += c === "@" ? free[k++] : c;
    const want = read(sx, s);
    const r: any = parseTwice(sx, json(), s);
    sx.observe("ok", r.success);
    if (want === BAD) {
      sx.cover("rejected");
      sx.assert(!r.success, "a text that is not JSON is accepted");
      sx.assert(!(json({ rootType: "string" } as any) as any).parse(s).success, "a text that is not JSON is accepted");
      return;
    }
    const over = numbers(want).some((n) => { const v = Number(n); return v === Infinity || v === -Infinity; });
    if (over) {
      sx.cover("overflow");
      sx.assert(!r.success, "a number out of range is accepted");
      return;
    }
    sx.cover("accepted");
    sx.assert(r.success, "a JSON text is rejected");
    sx.assert(same(sx, r.value, want), "a JSON text is misread");
    const back: any = json().parse(json().format(r.value));
    sx.assert(back.success && same(sx, back.value, want), "a formatted JSON value reads back differently");
    const type = kind(want);
    for (const t of TYPES) {
      const q: any = (json({ rootType: t } as any) as any).parse(s);
      sx.assert(q.success === (t === type), t === type ? "the root type asked for is rejected" : "a wrong root type is accepted");
      if (q.success) sx.assert(same(sx, q.value, want), "the root type changes the value");
      else sx.cover("root type");
    }
  },
};
