import { SG, CH, extends1, given, line, offered, reads, suggestCases } from "../_lib/sugg.ts";
export default {
  name: "sound",
  bounds: "15 grammars over all combinators with nothing required; every valid beginning of 0-2 (thorough: 3) words of 1-3 (5) printable characters, then a prefix of 0-3 (5)",
  assumptions: ["the words before the one being completed can be continued to a valid command line with at most one more word"],
  covers: ["offered", "nothing offered", "option awaiting its value"],
  cases: suggestCases,
  run(sx: any) {
    const [gk, lens, pl] = sx.case;
    const { make, words, hidden } = SG[gk];
    const g = make();
    const before = line(sx, lens);
    const complete = reads(sx, g, before);
    if (!complete) {
      sx.assume(extends1(sx, g, before, [...words, ...(hidden ?? [])]));
      sx.cover("option awaiting its value");
    }
    const p = sx.str("p", { len: pl, chars: CH });
    const got = offered(g, before, p);
    sx.observe("offered", got);
    sx.cover(got.length > 0 ? "offered" : "nothing offered");
    for (let i = 0; i < got.length; i++) {
      const t = got[i];
      sx.assert(sx.eq(t.slice(0, pl), p), "a suggestion does not begin with what was typed");
      for (let j = 0; j < i; j++) sx.assert(sx.not(sx.eq(t, got[j])), "a suggestion is offered twice");
      if (hidden) for (const h of hidden) sx.assert(sx.not(sx.eq(t, h)) , "something hidden is offered");
      // an option is offered again after it was given
      if (given(sx, before, t)) continue;
      sx.assert(extends1(sx, g, [...before, t], words), "a suggestion cannot be continued to a valid command line" + (t[0] === "-" && t[1] !== "-" && t[2] === "=" ? " (a value joined to a short option)" : gk === "args" ? " (a later optional positional)" : ""));
    }
  },
};
