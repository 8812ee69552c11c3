import { bool } from "@repo/packages/env/src/index.ts";
import { object } from "@optique/core/constructs";
import { option } from "@optique/core/primitives";
import { parse } from "@optique/core/parser";
const YES = ["true", "1", "yes", "on"], NO = ["false", "0", "no", "off"];
export default {
  name: "bool",
  bounds: "texts of 0-5 (thorough: 7) letters of either case, digits and spaces; through the value parser and through an option",
  assumptions: ["white space around a word may or may not count"],
  covers: ["yes", "no", "neither"],
  cases(tier: string) { return (tier === "quick" ? [0, 1, 2, 3, 4, 5] : [0, 1, 2, 3, 4, 5, 6, 7]).flatMap((l) => [[l, 0], [l, 1]]); },
  run(sx: any) {
    const [l, how] = sx.case;
    const s = sx.str("s", { len: l, chars: [["a", "z"], ["A", "Z"], ["0", "9"], [" ", " "]] });
    const same = (w: string) => w.length === l && [...w].every((c, i) => sx.is(sx.charIn(s[i], c + c.toUpperCase())));
    const vp: any = bool();
    const r: any = how === 0 ? vp.parse(s) : parse(object({ b: option("-b", vp) }), ["-b", s]);
    const got = how === 0 || !r.success ? r : { success: true, value: (r.value as any).b };
    sx.observe("r", got.success ? got.value : "refused");
    const padded = l > 0 && (sx.is(s[0] === " ") || sx.is(s[l - 1] === " "));
    if (padded) { if (got.success) sx.assert(typeof got.value === "boolean", "no Boolean"); return; }
    const want = YES.some(same) ? true : NO.some(same) ? false : undefined;
    sx.cover(want === undefined ? "neither" : want ? "yes" : "no");
    sx.assert(got.success === (want !== undefined), want === undefined ? "a text that is no Boolean is accepted" : "a Boolean is refused");
    if (got.success) {
      sx.assert(got.value === want, "a Boolean is misread");
      const b = vp.parse(vp.format(got.value));
      sx.assert(b.success && b.value === got.value, "a formatted Boolean does not parse back");
    }
    if (how === 0 && l > 0 && l < 4) {
      const off = [...vp.suggest(s)].map((x: any) => x.text);
      const fits = [...YES, ...NO].filter((w) => w.length >= l && [...w.slice(0, l)].every((c, i) => sx.is(sx.charIn(s[i], c + c.toUpperCase()))));
      sx.assert(off.length === fits.length && fits.every((w) => off.includes(w)), "the completions offered are not the words that begin like this");
    }
  },
};
