import { parseTwice } from "../_lib/again.ts";
import { biject, choice } from "@optique/core/valueparser";

const SETS: [string[], any][] = [
  [["a", "b"], {}],
  [["ab", "abc", "a", "ab"], {}],
  [["Debug", "info", "WARN"], { caseInsensitive: true }],
  [["Debug", "debug"], {}],
  [["K", "sS", "x-1"], { caseInsensitive: true }],
  [["-", "--", "a b", "é"], {}],
  [["É", "İ", "ς"], { caseInsensitive: true }],
];
const MAPS: any[] = [{ yes: true, no: false }, { one: 1, uno: 2, o: 3 }, { "1": "x", y: "1" }];
export default {
  name: "choice",
  bounds: "7 lists of string choices (overlapping prefixes, duplicates, mixed case, non-ASCII; case-sensitive or not) and 3 bijective mappings; every text of 0-5 (thorough: 0-7) UTF-16 code units (no surrogates) (case-insensitive ones beyond 3: ASCII and 4 letters that fold into it) as input and as completion prefix",
  covers: ["listed", "not listed", "listed in another case", "suggested"],
  cases(tier: string) {
    const out: any[] = [];
    const top = tier === "quick" ? 5 : 7;
    for (let i = 0; i < SETS.length; i++) for (let n = 0; n <= top; n++) out.push(["set", i, n]);
    for (let i = 0; i < MAPS.length; i++) for (let n = 0; n <= 4; n++) out.push(["map", i, n]);
    return out;
  },
  run(sx: any) {
    const [kind, i, n] = sx.case;
    const s = n > 3 && kind === "set" && SETS[i][1].caseInsensitive ? sx.str("s", { len: n, chars: [[0x20, 0x7e], 0xe9, 0xc9, 0x212a, 0x17f] }) : sx.str("s", { len: n });
    const list: string[] = kind === "set" ? SETS[i][0] : Object.keys(MAPS[i]);
    const fold = kind === "set" && SETS[i][1].caseInsensitive === true;
    const low = (t: string) => fold ? t.toLowerCase() : t;
    const vp: any = kind === "set" ? choice(list, SETS[i][1]) : biject(MAPS[i]);
    const r = parseTwice(sx, vp, s);
    // sequential comparison: the first listed spelling that equals the input
    let want = -1;
    for (let k = 0; k < list.length && want < 0; k++) if (sx.is(sx.eq(low(list[k]), low(s)))) want = k;
    sx.observe("ok", r.success);
    if (want < 0) {
      sx.cover("not listed");
      sx.assert(!r.success, "a text that is not one of the choices is accepted");
    } else {
      sx.cover("listed");
      if (!sx.is(sx.eq(s, list[want]))) sx.cover("listed in another case");
      sx.assert(r.success, "a listed choice is rejected");
      const v = kind === "set" ? list[want] : MAPS[i][list[want]];
      sx.assert(sx.eq(r.value, v), "a choice yields another choice's value");
      sx.assert(sx.eq(vp.format(r.value), list[want]), "a choice is not formatted as it is listed");
    }
    // what it suggests for this prefix: exactly the choices that start with it, each once
    const got = [...vp.suggest(s)];
    const uniq = [...new Set(list)];
    const wants = uniq.filter((c) => low(c).length >= low(s).length && sx.is(sx.eq(low(c).slice(0, low(s).length), low(s))));
    sx.assert(got.length === wants.length && got.every((g: any, k: number) => g.kind === "literal" && g.text === wants[k]), "suggests other than the choices with the given prefix");
    if (got.length > 0) sx.cover("suggested");
    for (const g of got) sx.assert(vp.parse(g.text).success, "suggests a text it rejects");
  },
};
