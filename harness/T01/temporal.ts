import { duration, instant, plainDate, plainDateTime, plainMonthDay, plainTime, plainYearMonth, timeZone, zonedDateTime } from "@repo/packages/temporal/src/index.ts";
import { mix } from "../_lib/mix.ts";

const KINDS: Record<string, [any, string]> = {
  instant: [instant, "Instant"], duration: [duration, "Duration"], zoned: [zonedDateTime, "ZonedDateTime"],
  date: [plainDate, "PlainDate"], time: [plainTime, "PlainTime"], datetime: [plainDateTime, "PlainDateTime"], ym: [plainYearMonth, "PlainYearMonth"], md: [plainMonthDay, "PlainMonthDay"],
};
// Shapes: 9 a digit, F a run of digits, C the characters of a calendar, other characters themselves
const CAL = ["[u-ca=C]", "[!u-ca=C]"], OPT = ["", ...CAL];
const YEAR = ["9999", "+999999", "-999999"];
const DATE = YEAR.flatMap((y) => [y + "-99-99", y + "9999"]);
const SEC = (s: string) => [s, s + ".F", s + ",F"];
const TIME = ["99", "99:99", "9999", ...SEC("99:99:99"), ...SEC("999999")];
const by = (...l: string[][]): string[] => l.reduce((a, b) => a.flatMap((x) => b.map((y) => x + y)));
const SHAPES: Record<string, string[]> = {
  date: by(DATE, OPT),
  time: by(["", "T", "t"], TIME, OPT),
  datetime: by(DATE, ["T", "t", " "], TIME, OPT),
  ym: [...by(YEAR.flatMap((y) => [y + "-99", y + "99"]), OPT), ...by(DATE, CAL)],
  md: [...by(["", "--"], ["99-99", "9999"], OPT), ...by(DATE, CAL)],
};
/** the shapes' texts: whether `s` has one of them */
function shaped(sx: any, s: string, shapes: string[]): boolean {
  const cls = (c: string, k: string): any => k === "9" || k === "F" ? sx.charIn(c, [["0", "9"]]) : k === "C" ? sx.charIn(c, [["0", "9"], ["a", "z"], ["A", "Z"], "-"]) : sx.eq(c, k);
  const any: any[] = [];
  for (const shape of shapes) {
    const f = shape.includes("F"), c = shape.includes("C"), extra = s.length - shape.length;
    if (extra < 0 || (extra > 0 && !f && !c)) continue;
    for (let n = f ? 0 : extra; n <= (c ? extra : extra); n++) {
      if (f && !c && n !== extra) continue;
      // n more characters in one part, the rest in the other
      const flat = shape.replace("F", "F".repeat(f ? n + 1 : 1)).replace("C", "C".repeat(f ? extra - n + 1 : extra + 1));
      if (flat.length !== s.length) continue;
      let all: any = true;
      for (let i = 0; i < flat.length && all !== false; i++) all = sx.and(all, cls(s[i], flat[i]));
      if (all !== false) any.push(all);
      if (!f) break;
    }
  }
  return any.length > 0 && sx.is(any.reduce((a, b) => sx.or(a, b)));
}
// `~` a character of dates and times, `&` any printable character
const T: Record<string, string[]> = {
  date: ["~020-01-2~", "2020~01~23", "~002020-01-23", "2020012~", "20200123~", "2020-01-23[u-ca=~]", "2020-01-23[&u-ca=ab~c]", "2020-01-23&u-ca=ab]", "2020-01-23T~~", "2020-01-23~", "~2020-01-23", "2020-1-~3", "2020-01-23&", "-00~020-01-23", "2020-01&23", "2020-01-23[u&ca=a]"],
  time: ["~7", "17:~4", "17~04", "17:04:~6", "17:04:36~5", "17:04:36.~~", "170436~1", "&17:04", "&1704", "17:04~", "17:04:36~", "17:04~1", "17~04~36", "T17:04:36.5[u-ca=~]", "17&", "1704~6", "17:04:36&", "2020-01-23T17:0~", "170436.1&"],
  datetime: ["2020-01-23&17:04", "2020-01-23T17~04", "20200123T17~", "20200123~1704", "2020-01-23T17:04:36&5", "2020-01-23T17:04:36~", "2020-01-23T~", "2020-01-23~", "~002020-01-23T17", "2020-01-23 17:04:36.5&", "2020-01-23T17:04[u-ca=&]", "2020-01-23T17:04+~~", "2020-01-23t170436,~"],
  ym: ["2020-~1", "2020~01", "202001~", "2020~1", "2020-01-~3", "2020-01-23[u-ca=~]", "2020-01[&u-ca=a]", "~02020-01", "~00202001", "2020-0&", "2020-01&", "20200123[u-ca=~]"],
  md: ["01-~3", "01~23", "0123~", "~01-23", "-~01-23", "--01~23", "--012~", "01-23[u-ca=~]", "2020-01-~3", "2020-01-23[&u-ca=a]", "20200123[u-ca=~]", "0&23", "&0123", "1-2~"],
  instant: ["2020-01-23T17:04:36&", "&", ""],
  duration: ["PT1&", "&1D", ""],
  zoned: ["2020-01-23T17:04[&TC]", "&"],
};
const ZONES = ["UTC", "GMT", "GMT0", "GMT+0", "GMT-0", "UCT", "Universal", "Greenwich", "Zulu", "EST", "MST", "HST", "Cuba", "Egypt", "Eire", "GB", "GB-Eire", "Hongkong", "Iceland", "Iran", "Israel", "Jamaica", "Japan", "Kwajalein", "Libya", "Navajo", "NZ", "NZ-CHAT", "Poland", "Portugal", "PRC", "ROC", "ROK", "Singapore", "Turkey", "W-SU"];
const KNOWN = ["Africa/Abidjan", "America/New_York", "Asia/Seoul", "Europe/Paris"];
export default {
  name: "temporal",
  bounds: "the nine parsers over 82 templates of texts of 0-24 characters with 1-2 symbolic ones (digits, signs, separators, or any printable character), with own error messages or none, under a Temporal that accepts or refuses every text it is asked about, or is missing; the names of time zones with one symbolic character; prefixes of 0-3 characters",
  assumptions: ["Temporal is a model: whether it accepts a text that has the shape of its kind is unknown, and its value is the text"],
  covers: ["accepted", "refused by its shape", "refused by Temporal", "no Temporal", "named zone", "zone with a region", "suggestions", "placeholder"],
  cases(tier: string) {
    const out: any[] = [];
    let m = 0;
    for (const k of Object.keys(KINDS)) for (const t of T[k]) for (const e of ["none", "text", "call"]) { m++; if (e === "none" || tier !== "quick" || mix(m) % 4 === 0) out.push([k, t, e]); }
    for (const k of [...Object.keys(KINDS), "zone"]) out.push(["missing", k]), out.push(["placeholder", k]);
    ZONES.forEach((z) => { for (let i = 0; i <= z.length; i++) { m++; if (tier !== "quick" || mix(m) % 3 === 0 || i === z.length) out.push(["zone", z, i]); } });
    for (const z of ["Asia/Se&ul", "&/B", "A&B/C", "A/&"]) for (const e of ["none", "text", "call"]) out.push(["region", z, e]);
    for (const p of ["", "&", "u&", "&t", "as&", "&"]) for (const has of [0, 1, 2]) out.push(["suggest", p, has]);
    return out;
  },
  run(sx: any) {
    const [k, t, e] = sx.case;
    const G: any = globalThis;
    const hadT = G.Temporal, hadI = G.Intl;
    const asked: any[] = [];
    let verdict: boolean | undefined;
    const from = (kind: string) => (x: any) => {
      asked.push([kind, x]);
      verdict ??= sx.flag("temporal");
      if (!verdict) throw new RangeError("no");
      return { kind, text: x, toString: () => x };
    };
    const model: any = {};
    for (const q of Object.keys(KINDS)) model[KINDS[q][1]] = { from: from(KINDS[q][1]) };
    const text = (s: string): string => {
      const at: any = {};
      for (let i = 0; i < s.length; i++) at[i] = s[i] === "~" ? [["0", "9"], "+", "-", ":", ".", ",", "T", "t", " ", "[", "]"] : s[i] === "&" ? [[0x20, 0x7e]] : s[i];
      return s.length === 0 ? "" : sx.str("s", { len: s.length, at });
    };
    const mine = [{ type: "text", text: "mine" }], calls: any[] = [];
    const options = (e_: string): any => e_ === "none" ? {} : { errors: { invalidFormat: e_ === "text" ? mine : (x: any) => { calls.push(x); return mine; } } };
    const refused = (r: any, s: any, e_: string) => {
      sx.assert(!r.success && Array.isArray(r.error) && r.error.length > 0, "a refusal has no message");
      if (e_ === "none") sx.assert(r.error.some((x: any) => x.type === "value" && sx.is(sx.eq(x.value, s))), "a refusal does not show the text typed");
      else sx.assert(sx.eq(r.error, mine), "the message set is not the one told");
      if (e_ === "call") sx.assert(calls.length === 1 && sx.is(sx.eq(calls[0], s)), "the message is not made from the text typed");
    };
    G.Temporal = k === "missing" ? undefined : model;
    try {
      if (k === "missing") {
        sx.cover("no Temporal");
        const p: any = (t === "zone" ? timeZone : KINDS[t][0])();
        let threw: any;
        try { p.parse(text("&")); } catch (x) { threw = x; }
        sx.assert(threw instanceof TypeError, "a missing Temporal is not told as an error of the program");
        return;
      }
      if (k === "placeholder") {
        sx.cover("placeholder");
        const p: any = (t === "zone" ? timeZone : KINDS[t][0])();
        const v = p.placeholder;
        if (t === "zone") sx.assert(v === "UTC", "the placeholder is no time zone");
        else sx.assert(verdict ? v?.kind === KINDS[t][1] : v === undefined, "the placeholder is no value of the parser's kind");
        return;
      }
      if (k === "suggest") {
        sx.cover("suggestions");
        const list = e === 2 ? undefined : e === 1 ? [...KNOWN, "UTC", "GMT"] : [...KNOWN];
        G.Intl = { supportedValuesOf: (what: string) => { if (list === undefined || what !== "timeZone") throw new RangeError(); return [...list]; } };
        const p = text(t);
        const got = [...(timeZone() as any).suggest(p)].map((x: any) => x.text).sort();
        const want = [...(list === undefined ? [] : KNOWN), "UTC", "GMT"].filter((z) => z.length >= p.length && sx.is(sx.eq(z.slice(0, p.length).toLowerCase(), p.toLowerCase()))).sort();
        sx.assert(sx.eq(got, want), "the time zones offered are not those that start with the prefix typed");
        return;
      }
      if (k === "zone") {
        sx.cover("named zone");
        const at: any = {};
        for (let i = 0; i < t.length; i++) at[i] = i === e ? [[0x20, 0x7e]] : mix(i + t.length) % 2 ? t[i].toLowerCase() : t[i].toUpperCase();
        const s: any = sx.str("s", { len: t.length, at });
        if (e < t.length && sx.is(sx.eq(s[e], "/"))) return;
        const r = (timeZone() as any).parse(s);
        const hit = ZONES.find((z) => z.length === t.length && sx.is(sx.eq(s.toLowerCase(), z.toLowerCase())));
        sx.assert(r.success === (hit !== undefined), hit ? "a documented time zone is refused" : "a name that is no time zone's is accepted");
        if (hit) sx.assert(sx.eq(r.value, hit) , "a time zone has not its own spelling");
        else refused(r, s, "none");
        return;
      }
      const s = text(k === "region" ? t : t);
      if (k === "region") {
        sx.cover("zone with a region");
        let zone: any;
        model.ZonedDateTime.from = (x: any) => { zone = x.timeZone; verdict = sx.flag("temporal"); if (!verdict) throw new RangeError(); return {}; };
        const r = (timeZone(options(e)) as any).parse(s);
        sx.assert(zone !== undefined && sx.is(sx.eq(zone, s)), "Temporal is not asked about the time zone typed");
        if (!verdict) return refused(r, s, e);
        sx.assert(r.success && sx.is(sx.eq(r.value, s)) && sx.is(sx.eq((timeZone() as any).format(r.value), s)), "a time zone Temporal knows is not returned as it is");
        return;
      }
      const [make, kind] = KINDS[k];
      const p = make(options(e));
      const r = p.parse(s);
      sx.observe("ok", r.success);
      const ok = SHAPES[k] === undefined || shaped(sx, s, SHAPES[k]);
      if (!ok) {
        sx.cover("refused by its shape");
        sx.assert(!r.success, "a text that is not of the parser's own notation is accepted");
        return refused(r, s, e);
      }
      sx.assert(asked.length > 0 && asked.every((a) => a[0] === kind && sx.is(sx.eq(a[1], s))), "Temporal is not asked for the parser's kind of value and the text typed");
      if (!verdict) { sx.cover("refused by Temporal"); return refused(r, s, e); }
      sx.cover("accepted");
      sx.assert(r.success && r.value.kind === kind && sx.is(sx.eq(r.value.text, s)), "a text Temporal accepts does not give its value");
      sx.assert(sx.eq(p.format(r.value), s), "a value is not written as Temporal writes it");
    } finally {
      G.Temporal = hadT;
      G.Intl = hadI;
    }
  },
};
