import { choice, firstOf, float, integer, json, keyValue, macAddress, port, string, transform } from "@optique/core/valueparser";
import { message } from "@optique/core/message";

const M = new Map<string, number>([["on", 1], ["off", 0]]);
/** the parts; `own` decides, independently, whether a value belongs to the part */
const PARTS: Record<string, () => any> = {
  any: () => string(),
  ab: () => string({ pattern: /^[ab]+$/ }),
  g: () => string({ pattern: /a/g }),
  y: () => string({ pattern: /b/y }),
  words: () => choice(["auto", "a", "b1"]),
  ci: () => choice(["AUTO", "Ab"], { caseInsensitive: true }),
  nums: () => choice([1, 2, -1]),
  int: () => integer({ min: 1, max: 50 }),
  neg: () => integer(),
  big: () => integer({ type: "bigint" }),
  flt: () => float({ min: -1 }),
  port: () => port({ min: 10 } as any),
  kv: () => keyValue(),
  kvint: () => keyValue({ value: integer() } as any),
  mac: () => macAddress({ outputSeparator: "-", case: "upper" } as any),
  onoff: () => transform(choice(["on", "off"]), { map: (x: string) => M.get(x)!, unmap: (v: number) => v === 1 ? "on" : "off" }),
  twice: () => transform(integer({ min: 0, max: 99 }), { map: (x: number) => x * 2, unmap: (v: number) => typeof v === "number" ? v / 2 : NaN }),
  box: () => transform(string({ pattern: /^[a1]/ }), { map: (x: string) => ({ box: x }), unmap: (v: any) => v?.box }),
};
const SETS: string[][] = [
  ["words", "int"], ["int", "words"], ["words", "any"], ["any", "int"], ["nums", "words"], ["ab", "nums"], ["ci", "ab"], ["int", "neg", "flt"], ["nums", "flt"], ["kv", "any"], ["kvint", "kv", "words"],
  ["box", "int"], ["box", "any"], ["twice", "words"], ["onoff", "int"], ["g", "int"], ["y", "g"], ["port", "int", "any"], ["big", "words"], ["flt", "twice"], ["neg", "big"],
];
const CH: Record<string, any> = { text: "ab1", num: "-01.5", word: "auton", kv: "a=1" };
const kindOf = (set: string[]) => [set.some((x) => ["int", "neg", "flt", "nums", "twice", "port", "big"].includes(x)) ? "num" : "", "text", set.some((x) => ["words", "ci", "onoff"].includes(x)) ? "word" : "", set.some((x) => x.startsWith("kv")) ? "kv" : ""].filter(Boolean);
function eqv(sx: any, a: any, b: any): any {
  if (typeof a !== typeof b) return false;
  if (Array.isArray(a)) return Array.isArray(b) && a.length === b.length && sx.and(...a.map((x: any, k: number) => eqv(sx, x, b[k])));
  if (a !== null && typeof a === "object") return sx.eq(a.box, b.box);
  return sx.eq(a, b);
}
const texts = (it: any) => [...(it ?? [])].map((s: any) => s.kind === "literal" ? s.text : "<file>");
export default {
  name: "combine",
  bounds: "firstOf() of 2-3 of 18 value parsers in 21 sets, flat and nested; transform() of each; texts of 0-4 (thorough: 6) characters over 4 alphabets; values of every kind offered as fallbacks",
  assumptions: ["numbers are below 2^53; transformations are inverse to each other"],
  covers: ["first", "later", "none", "transformed", "fallback taken", "fallback refused", "suggested", "ambiguous"],
  cases(tier: string) {
    const out: any[] = [];
    const top = tier === "quick" ? 4 : 6;
    for (const [i, set] of SETS.entries()) for (const k of kindOf(set)) for (let n = 0; n <= top; n++) { if (n < 2 && k !== "text" || n > 3 && k === "num" && set.includes("nums") && tier === "quick") continue; out.push(["firstOf", i, k, n]); }
    for (const p of Object.keys(PARTS)) for (const k of kindOf([p])) for (let n = 0; n <= (p === "nums" ? 3 : top); n++) out.push(["transform", p, k, n]);
    for (const [i, set] of SETS.entries()) { if (set.some((x) => ["kvint", "kv", "big", "mac"].includes(x))) continue; for (const v of ["str", "num", "obj", "null"]) out.push(["fallback", i, v, 0]); }
    for (const [i, set] of SETS.entries()) if (set.some((x) => ["words", "ci", "nums", "onoff"].includes(x))) out.push(["suggest", i, "word", 0]);
    out.push(["mac", "int", "text", 0], ["errors", 0, "text", 2]);
    return out;
  },
  run(sx: any) {
    const [what, arg, kind, n] = sx.case;
    if (what === "mac") {
      const s = sx.str("s", { len: 17, at: { ...Object.fromEntries([2, 5, 8, 11, 14].map((k) => [k, ":"])), ...Object.fromEntries([0, 1, 3, 4, 6, 7, 9, 10, 12, 13, 15].map((k) => [k, "0"])), 16: "afAF09" } });
      const part = PARTS.mac(), f: any = firstOf(integer(), part as any), a: any = part.parse(s), r: any = f.parse(s);
      sx.assert(r.success && a.success && sx.eq(r.value, a.value), "firstOf() changes a value");
      const nv = f.normalize(s);
      sx.assert(sx.eq(nv, part.normalize(s)), "firstOf() does not normalize as the part the value belongs to");
      const tv: any = transform(part, { map: (x: string) => [x], unmap: (x: any) => x[0] }).normalize!([s] as any);
      sx.assert(sx.eq(tv[0], part.normalize(s)), "transform() does not normalize as its base");
      sx.cover("first");
      return;
    }
    if (what === "fallback") {
      const set = SETS[arg as number], parts = set.map((x) => PARTS[x]());
      const v: any = kind === "str" ? sx.str("v", { max: 3, chars: "ab1" }) : kind === "num" ? !set.includes("twice") ? sx.int("v", -60, 160) : sx.flag("high") ? sx.int("vh", 190, 212) : sx.int("vl", -6, 24) : kind === "obj" ? { box: sx.str("v", { max: 2, chars: "ab1" }) } : null;
      // what a part, alone, says of the value
      const own = (x: string): boolean => {
        if (kind === "null") return false;
        if (kind === "obj") return x === "box" && sx.is(v.box.length > 0 && sx.charIn(v.box[0], "a1"));
        if (kind === "str") {
          if (x === "any") return true;
          if (x === "ab") return sx.is(v.length > 0) && ![...v].some((c: string) => sx.is(sx.eq(c, "1")));
          if (x === "g") return [...v].some((c: string) => sx.is(sx.eq(c, "a")));
          if (x === "y") return v.length > 0 && sx.is(sx.eq(v[0], "b"));
          if (x === "words") return ["auto", "a", "b1"].some((w) => sx.is(sx.eq(v, w)));
          if (x === "ci") return ["auto", "ab"].some((w) => sx.is(sx.eq(v.toLowerCase(), w)));
          return false;
        }
        if (x === "nums") return [1, 2, -1].some((w) => sx.is(sx.eq(v, w)));
        if (x === "int") return sx.is(v >= 1) && sx.is(v <= 50);
        if (x === "neg") return true;
        if (x === "flt") return sx.is(v >= -1);
        if (x === "port") return sx.is(v >= 10);
        if (x === "twice") return sx.is(v >= 0) && sx.is(v <= 198) && sx.is(sx.eq(v % 2, 0));
        if (x === "onoff") return sx.is(sx.eq(v, 0)) || sx.is(sx.eq(v, 1));
        return false;
      };
      if (set.includes("onoff") && kind !== "num") return; // its unmap turns anything into a word
      const f: any = firstOf(parts as any), r = f.validate(v);
      const want = set.some(own) || (set.includes("onoff") && kind === "num"); // and any number
      sx.cover(want ? "fallback taken" : "fallback refused");
      sx.observe("ok", r.success);
      sx.assert(r.success === want, want ? "firstOf() refuses a fallback value one of its parts takes" : "firstOf() takes a fallback value none of its parts takes");
      return;
    }
    if (what === "suggest") {
      const parts = SETS[arg as number].map((x) => PARTS[x]()), f: any = firstOf(parts as any);
      const p = sx.str("p", { max: 2, chars: "Aabo1-" });
      const each = parts.flatMap((q: any) => texts(q.suggest?.(p)));
      const want: string[] = [];
      for (const w of each) if (!want.some((x) => x === w)) want.push(w);
      const got = texts(f.suggest?.(p));
      if (want.length) sx.cover("suggested");
      sx.assert(got.length === want.length && got.every((g, k) => g === want[k]), "the completions of firstOf() are not those of its parts");
      if (f.choices) sx.assert(parts.every((q: any) => q.choices), "choices of some parts are given as all");
      const t: any = transform(parts[0], { map: (x: any) => [x], unmap: (x: any) => x[0] });
      const a = texts(parts[0].suggest?.(p)), b = texts(t.suggest?.(p));
      sx.assert(a.length === b.length && a.every((g, k) => g === b[k]), "the completions of transform() are not those of its base");
      return;
    }
    const s = sx.str("s", { len: n, chars: CH[kind] });
    if (what === "errors") {
      const f: any = firstOf(integer({ errors: { invalidInteger: message`one` } } as any), choice(["zz"], { errors: { invalidChoice: message`two` } } as any), { errors: { noMatch: (i: string, es: any[]) => message`${i} ${String(es.length)} ${es.map((e) => e[0].text).join()}` } } as any);
      const r = f.parse(s);
      if (!r.success) sx.assert(sx.and(sx.eq(r.error[0].value, s), r.error[2].value === "2", r.error[4].value === "one,two"), "the errors of the parts are not handed on");
      return;
    }
    if (what === "transform") {
      const base: any = PARTS[arg as string]();
      let unmapped = 0;
      const t: any = transform(base, { map: (x: any) => ({ box: x }), unmap: (v: any) => { unmapped++; return v.box; } });
      const a: any = base.parse(s), r: any = t.parse(s);
      sx.observe("ok", r.success);
      sx.assert(r.success === a.success, "transform() changes what is accepted");
      sx.assert(unmapped === 0, "parsing calls the inverse");
      const d: any = t.parse(s);
      sx.assert(d.success === a.success, "a second parse of the same text differs");
      if (!a.success) { sx.cover("none"); return; }
      sx.cover("transformed");
      sx.assert(eqv(sx, r.value.box, a.value), "transform() does not give the mapped value");
      sx.assert(eqv(sx, t.format(r.value), base.format(a.value)), "transform() formats differently from its base");
      const v = t.validate(r.value);
      sx.assert(v.success && eqv(sx, v.value.box, a.value), "a parsed value is refused as a fallback value");
      const tt: any = transform(t, { map: (x: any) => [x], unmap: (v: any) => v[0] });
      const q = tt.parse(s);
      sx.assert(q.success && eqv(sx, q.value[0].box, a.value), "transform() of transform() gives another value");
      sx.assert(tt.validate(q.value).success, "transform() of transform() refuses a parsed value");
      return;
    }
    const set = SETS[arg as number], parts = set.map((x) => PARTS[x]());
    const rs = parts.map((p) => p.parse(s));
    const at = rs.findIndex((r) => r.success);
    sx.cover(at < 0 ? "none" : at === 0 ? "first" : "later");
    const shapes: any[] = [firstOf(parts as any)];
    if (n >= 2) { shapes.push((firstOf as any)(...parts, { metavar: "X" })); if (parts.length > 2) shapes.push((firstOf as any)(parts[0], firstOf(parts.slice(1) as any)), (firstOf as any)((firstOf as any)(parts[0], parts[1]), parts[2])); }
    for (const f of shapes) {
      const r: any = f.parse(s);
      sx.assert(r.success === (at >= 0), at >= 0 ? "firstOf() refuses what one of its parts accepts" : "firstOf() accepts what none of its parts accepts");
      if (at < 0) continue;
      sx.assert(eqv(sx, r.value, rs[at].value), "firstOf() does not give the value of the first part that accepts");
      const v = f.validate(r.value);
      sx.assert(v.success, "a parsed value is refused as a fallback value");
      const written = f.format(r.value);
      if (parts.slice(0, at).some((p) => p.parse(written).success)) { sx.cover("ambiguous"); continue; } // an earlier part reads that text
      const back = f.parse(written);
      sx.assert(back.success && eqv(sx, back.value, r.value), "a formatted value reads back differently");
    }
    sx.observe("at", at);
  },
};
