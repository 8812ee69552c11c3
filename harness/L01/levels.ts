import { object } from "@optique/core/constructs";
import { option } from "@optique/core/primitives";
import { optional } from "@optique/core/modifiers";
import { parse } from "@optique/core/parser";
import { integer } from "@optique/core/valueparser";
import { debug, loggingOptions, logLevel, verbosity } from "@repo/packages/logtape/src/index.ts";
// most serious first
const LEVELS = ["fatal", "error", "warning", "info", "debug", "trace"];
const o: any = option;
export default {
  name: "levels",
  bounds: "verbosity flags, a debug flag and a level option, alone and in the preset, with every base level, default or pair of levels and default or own names; command lines of up to 4 tokens of 1-4 characters (for the option up to 7), every character unknown over dashes, the flags' letters and two more",
  assumptions: [],
  covers: ["counted", "most verbose", "flagged", "level", "default", "refused"],
  cases(tier: string) {
    const out: any[] = [];
    for (const preset of [false, true]) {
      for (const base of LEVELS) for (const lens of [[], [2], [3], [4], [2, 2], [3, 2], [2, 2, 2, 2], [9]]) for (const own of [false, true]) {
        if (tier === "quick" && own && base !== "info") continue;
        if (tier === "quick" && preset && base !== "fatal" && base !== "trace") continue;
        out.push(["verbosity", preset, base, lens, own]);
      }
      for (const pair of [["debug", "info"], ["trace", "fatal"], ["error", "warning"], [undefined, undefined]]) for (const lens of [[], [2], [3], [7], [2, 2]]) for (const own of [false, true]) out.push(["debug", preset, pair, lens, own]);
      for (const dflt of preset ? [undefined, ...LEVELS] : [undefined]) for (const lens of [[], [4], [5], [7], [3]]) for (const own of [false, true]) out.push(["option", preset, dflt, lens, own]);
      out.push(["bad", preset]);
    }
    return out;
  },
  run(sx: any) {
    const [kind, preset] = sx.case;
    if (kind === "bad") {
      // a level that is none is refused when the program is built
      const w = sx.str("w", { len: 5, chars: "eror trac" });
      const known = LEVELS.some((l) => sx.is(sx.eq(l, w)));
      const makes: any[] = preset ? [() => loggingOptions({ level: "option", default: w } as any), () => loggingOptions({ level: "verbosity", baseLevel: w } as any), () => loggingOptions({ level: "debug", debugLevel: w } as any), () => loggingOptions({ level: "debug", normalLevel: w } as any)] : [() => verbosity({ baseLevel: w }), () => debug({ debugLevel: w }), () => debug({ normalLevel: w })];
      for (const make of makes) {
        let threw = false;
        try { make(); } catch (e) { threw = e instanceof TypeError; }
        sx.assert(threw === !known, "a level that does not exist is taken for the program's own setting");
      }
      if (preset) {
        let threw = false;
        try { loggingOptions({ level: w } as any); } catch (e) { threw = e instanceof TypeError; }
        sx.assert(threw, "an unknown way to set the level is taken");
      }
      sx.cover("refused");
      return;
    }
    const [, , base, lens, own] = sx.case;
    const names: any = own ? { short: "-q", long: "--qq" } : {};
    const get = (v: any) => preset ? v.f.logLevel : v.f;
    if (kind === "option") {
      const parser: any = object({ n: optional(o("-n", integer())), f: preset ? loggingOptions({ level: "option", default: base, ...names } as any) : optional(o("-l", "--log-level", logLevel())) });
      const [s, l] = own && preset ? ["-q", "--qq"] : ["-l", "--log-level"];
      const word = lens.length ? sx.str("word", { len: lens[0], chars: [[0x41, 0x5a], [0x61, 0x7a]] as any }) : undefined;
      const r: any = parse(parser, word === undefined ? ["-n", "1"] : own ? ["-n", "1", s, word] : [l + "=" + word, "-n", "1"]);
      sx.observe("ok", r.success);
      if (word === undefined) {
        sx.cover("default");
        sx.assert(r.success && get(r.value) === (preset ? base ?? "info" : undefined), "the level without an option is not the default");
        return;
      }
      const want = LEVELS.find((x) => sx.is(sx.eq(word.toLowerCase(), x)));
      sx.assert(r.success === (want !== undefined), want === undefined ? "a word that is no level is taken for one" : "a level is refused");
      if (want === undefined) { sx.cover("refused"); return; }
      sx.cover("level");
      sx.assert(sx.eq(get(r.value), want), "another level is set than the one named");
      return;
    }
    const [s, l] = own ? ["-q", "--qq"] : kind === "verbosity" ? ["-v", "--verbose"] : ["-d", "--debug"];
    const args: any[] = lens.map((n: number, i: number) => n === 9 || n === 7 ? sx.pick("t" + i, [l, l + "x", s + "n"]) : sx.str("t" + i, { len: n, chars: "-" + s[1] + "x" }));
    const f: any = kind === "verbosity" ? (preset ? loggingOptions({ level: "verbosity", baseLevel: base, ...names } as any) : verbosity({ baseLevel: base, ...names } as any)) : preset ? loggingOptions({ level: "debug", debugLevel: base[0], normalLevel: base[1], ...names } as any) : debug({ debugLevel: base[0], normalLevel: base[1], ...names } as any);
    const r: any = parse(object({ n: optional(o("-n", integer())), f }), args);
    sx.observe("ok", r.success);
    // how often the flag is given: in clusters or by its long name
    let count = 0, ok = true, ended = false;
    for (const t of args) {
      if (ended) ok = false;
      else if (sx.is(sx.eq(t, "--"))) ended = true;
      else if (sx.is(sx.eq(t, l))) count++;
      else if (t.length >= 2 && sx.is(t[0] === "-") && [...Array(t.length - 1)].every((_, i) => sx.is(t[i + 1] === s[1]))) count += t.length - 1;
      else ok = false;
    }
    if (kind === "debug" && count > 1) ok = false;
    sx.assert(r.success === ok, ok ? "a command line of flags is refused" : "a command line with other tokens than the flags is accepted");
    if (!ok) { sx.cover("refused"); return; }
    const at = LEVELS.indexOf(base) + count;
    if (kind === "verbosity") { sx.cover(at > 5 ? "most verbose" : "counted"); sx.assert(get(r.value) === LEVELS[Math.min(at, 5)], "the level is not the base level made as many steps more verbose as flags are given"); }
    else { sx.cover(count ? "flagged" : "default"); sx.assert(get(r.value) === (count ? base[0] ?? "debug" : base[1] ?? "info"), "the level is not the one for the debug flag being given or not"); }
  },
};
