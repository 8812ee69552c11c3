import { parseTwice } from "../_lib/again.ts";
import { cron } from "@optique/core/valueparser";
import { allDigits } from "../_lib/tmpl.ts";

const FIELDS: Record<string, [number, number, string[], number]> = {
  second: [0, 59, [], 0], minute: [0, 59, [], 0], hour: [0, 23, [], 0], dayOfMonth: [1, 31, [], 0],
  month: [1, 12, ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"], 1],
  dayOfWeek: [0, 7, ["SUN", "MON", "TUE", "WED", "THU", "FRI", "SAT"], 0], year: [1970, 2099, [], 0],
};
const ORDER = Object.keys(FIELDS);
const OPTS: any[] = [{}, { seconds: true }, { years: true, seconds: true }, { quartz: true }];
const P = [[0x21, 0x7e]], D = [["0", "9"]], L = [["a", "z"], ["A", "Z"]];
/** `&` printable non-blank, `#` digit, `$` letter */
function make(sx: any, name: string, t: string): string {
  const at: any = {};
  for (let i = 0; i < t.length; i++) at[i] = t[i] === "&" ? P : t[i] === "#" ? D : t[i] === "$" ? L : t[i];
  return sx.str(name, { len: t.length, at });
}
function value(sx: any, s: string, kind: string): number | null {
  const [lo, hi, names, base] = FIELDS[kind];
  const up = s.toUpperCase();
  for (let i = 0; i < names.length; i++) if (sx.is(sx.eq(up, names[i]))) return i + base;
  if (!allDigits(sx, s)) return null;
  const n: any = Number(sx.decimal(s));
  return n >= lo && n <= hi ? n : null;
}
function part(sx: any, s: string, kind: string): boolean {
  const st = s.split("/");
  if (st.length > 2) return false;
  if (st.length === 2 && !(allDigits(sx, st[1]) && sx.is(sx.decimal(st[1]) > 0n))) return false;
  if (sx.is(sx.eq(st[0], "*"))) return true;
  const ends = st[0].split("-");
  if (ends.length === 1) return value(sx, ends[0], kind) !== null;
  if (ends.length !== 2) return false;
  const a = value(sx, ends[0], kind);
  let b = value(sx, ends[1], kind);
  // a range that ends on Sunday ends the week, unless it starts there by name
  if (kind === "dayOfWeek" && b !== null && sx.is(sx.eq(b, 0)) && !sx.is(sx.eq(ends[0].toUpperCase(), "SUN")) && (ends[1].length === 3 || ends[1].length === 1)) b = 7;
  return a !== null && b !== null && a <= b;
}
function field(sx: any, s: string, kind: string, quartz: boolean): boolean {
  if (s.length === 0) return false;
  if (s.split(",").every((q) => q.length > 0 && part(sx, q, kind))) return true;
  if (!quartz || (kind !== "dayOfMonth" && kind !== "dayOfWeek")) return false;
  const up = s.toUpperCase();
  if (sx.is(sx.or(sx.eq(up, "?"), sx.eq(up, "L")))) return true;
  if (kind === "dayOfMonth") {
    if (sx.is(sx.eq(up, "LW"))) return true;
    return s.length > 1 && s.length < 4 && sx.is(sx.eq(up[up.length - 1], "W")) && allDigits(sx, s.slice(0, -1)) && value(sx, s.slice(0, -1), kind) !== null;
  }
  const day = (q: string) => q.length === 1 ? sx.is(sx.charIn(q, [["1", "7"]])) : q.length === 3 && FIELDS.dayOfWeek[2].some((d) => sx.is(sx.eq(q.toUpperCase(), d)));
  if (s.length > 1 && sx.is(sx.eq(up[up.length - 1], "L"))) return day(s.slice(0, -1));
  return s.length > 2 && s[s.length - 2] === "#" && sx.is(sx.charIn(s[s.length - 1], [["1", "5"]])) && day(s.slice(0, -2));
}
const COMMON = ["&", "&&", "&&&", "#&#&", "##", "###", "#-#", "##-##", "&-&", "#/#", "*/&", "*/##", "#,#", "&,&", "#-#/#", "##,&", ",#", "*&", "*-#", "#-*", "0#", "#//#"];
const NAMES = ["$$$", "$$$-#", "#-$$$", "&un", "su&-sa&", "$ON-SU$", "fri-su&/2", "#,j&n", "ja&-de&", "DE&-ja&"];
const QUARTZ = ["&L", "L&", "##W", "#&W", "&", "&W", "su&L", "$$$L", "fr&N3", "LW&", "&,L"];
export default {
  name: "cron",
  bounds: "cron() with 4 option sets; each of its 5-7 fields in turn is one of 20-42 templates of up to 7 characters with 1-5 symbolic ones, the other fields fixed; symbolic blanks between fields; 1-8 fields",
  covers: ["accepted", "rejected", "field count", "blank"],
  cases(tier: string) {
    const out: any[] = [];
    OPTS.forEach((opt, o) => {
      for (const k of ORDER) {
        if ((k === "second" && !opt.seconds) || (k === "year" && !opt.years)) continue;
        if (tier === "quick" && o > 0 && !["second", "year"].includes(k) && !opt.quartz) continue;
        for (const t of COMMON) out.push([o, k, t]);
        if (k === "year") for (const t of ["####", "19##-20##", "20##/#", "&970"]) out.push([o, k, t]);
        if (k === "month" || k === "dayOfWeek" || tier !== "quick") for (const t of NAMES) out.push([o, k, t]);
        if (opt.quartz) for (const t of QUARTZ) out.push([o, k, t]);
      }
      out.push([o, "count", "#"], [o, "blank", "#"]);
      if (opt.quartz) out.push([o, "both", "&"]);
    });
    return out;
  },
  run(sx: any) {
    const [o, k, t] = sx.case;
    const opt = OPTS[o];
    const names = ORDER.filter((n) => (n !== "second" || opt.seconds) && (n !== "year" || opt.years));
    const vals: any = { second: "5", minute: "0", hour: "7", dayOfMonth: "*", month: "jan", dayOfWeek: "1-5", year: "2000" };
    const vp: any = cron(opt);
    if (k === "count") {
      const n = sx.choice("n", 9);
      const r = vp.parse(Array(n).fill(n % 2 ? "1" : "*").join(" ").replaceAll("1", "*"));
      sx.cover("field count");
      sx.assert(r.success === (n === names.length), "accepts another number of fields");
      return;
    }
    let sep = " ", lead = "";
    if (k === "blank") {
      sep = sx.str("sep", { min: 1, max: 2 });
      lead = sx.str("lead", { min: 0, max: 1, chars: [[0, 0x2029]] });
      for (const q of [sep, lead]) for (let i = 0; i < q.length; i++) sx.assume(sx.test(/\s/, q[i]));
      sx.cover("blank");
    } else if (k === "both") {
      vals.dayOfMonth = make(sx, "s", t);
      vals.dayOfWeek = make(sx, "s2", t);
    } else vals[k] = make(sx, "s", t);
    const text = lead + names.map((n) => vals[n]).join(sep) + lead;
    const r = parseTwice(sx, vp, text);
    sx.observe("ok", r.success);
    let want = k === "blank" || (k === "both" ? field(sx, vals.dayOfMonth, "dayOfMonth", true) && field(sx, vals.dayOfWeek, "dayOfWeek", true) : field(sx, vals[k], k, opt.quartz === true));
    if (k === "both" && want) want = !(vals.dayOfMonth === "?" && vals.dayOfWeek === "?");
    sx.cover(want ? "accepted" : "rejected");
    sx.assert(r.success === want, want ? "a valid schedule is rejected" : "an invalid schedule is accepted");
    if (want) {
      const w: any = {};
      for (const n of names) w[n] = vals[n];
      sx.assert(sx.eq(r.value, w), "a schedule's fields are misread");
      const back = vp.parse(vp.format(r.value));
      sx.assert(back.success && sx.is(sx.eq(back.value, r.value)), "a formatted schedule does not parse back");
      sx.assert(vp.validate(r.value).success, "validate() refuses a parsed schedule");
    }
  },
};
