import { SG, CH, extends1, line, offered, reads, suggestCases } from "../_lib/sugg.ts";
export default {
  name: "complete",
  bounds: "15 grammars over all combinators with nothing required; every valid beginning of 0-2 (thorough: 3) words of 1-3 (5) printable characters, then a prefix of 0-3 (5)",
  assumptions: ["option names are candidates only after a prefix that begins with an option mark (a lone `-`: short ones only), and not after `--`"],
  covers: ["candidate", "no candidate", "option awaiting its value"],
  cases: suggestCases,
  run(sx: any) {
    const [gk, lens, pl] = sx.case;
    const { make, words } = SG[gk];
    const g = make();
    const before = line(sx, lens);
    const complete = reads(sx, g, before);
    if (!complete) {
      sx.assume(extends1(sx, g, before, words));
      sx.cover("option awaiting its value");
    }
    for (const t of before) sx.assume(sx.not(sx.eq(t, "--")));
    const p = sx.str("p", { len: pl, chars: CH });
    const cand = words.filter((w) => w.length >= pl && sx.is(sx.eq(w.slice(0, pl), p)) && (!/^[-/+]/.test(w) || w === "-n" && !complete || pl > 0 && (pl > 1 || w.length === 2 || w[0] !== "-")));
    let got: string[] | null = null;
    for (const w of cand) {
      // multiple() does not offer a value again
      if (before.some((t) => sx.is(sx.eq(t, w)))) continue;
      if (!extends1(sx, g, [...before, w], words)) continue;
      got ??= offered(g, before, p);
      sx.cover("candidate");
      sx.assert(got.some((t) => sx.is(sx.eq(t, w))), "a valid continuation is not offered" + (/^(or|longest)$/.test(gk) ? " (an alternative was selected by a shared option)" : ""));
    }
    if (got === null) sx.cover("no candidate");
  },
};
