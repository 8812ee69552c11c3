import { mix } from "../_lib/mix.ts";
import { ABSENT, expected, ok, PLACE, runSources, type Setup } from "../_lib/sources.ts";
const CHAINS: string[][] = [["env"], ["config"], ["derived"], ["env", "config"], ["env", "derived"], ["derived", "env"], ["env", "derived", "config"]];
const CH: any = [[0x21, 0x2c], [0x2e, 0x7e]];
export default {
  name: "chain",
  bounds: "7 nestings of environment, configuration and derived sources around an option or an argument in 21 places; each source set or not and with or without a default; text (0-2 characters) and integer values symbolic; synchronous and asynchronous value parsers and runners",
  assumptions: ["a configuration source is innermost (bindConfig() without a value does not look further in)", "the configuration is handed over by load(); its schema accepts everything"],
  covers: ["cli", "env", "config", "derived", "default", "missing", "absent", "refused"],
  cases(tier: string) {
    const out: any[] = [];
    let n = 0;
    for (const place of Object.keys(PLACE)) for (const chain of CHAINS) for (let set = 0; set < 1 << chain.length; set++) for (const dflt of [0, 1, 2]) for (const cli of [0, 1]) for (const int of [false, true]) {
      // which source carries a default: none, the innermost, all
      const m = n++;
      if (tier === "quick") {
        if (cli && (set !== (1 << chain.length) - 1 && set !== 0 || dflt === 2)) continue;
        if (chain.length > 1 && (dflt === 2 || mix(m) % 4 !== 0)) continue;
        if (chain.length === 1 && !/^(object|command|optional|default|tuple)$/.test(place) && mix(m) % 2 !== 0) continue;
      }
      for (const mode of tier === "quick" ? [mix(m + 7) % 3] : [0, 1, 2]) for (const arg of tier === "quick" ? [mix(m + 9) % 5 === 0] : [false, true]) out.push([place, chain, set, dflt, cli, int, mode, arg]);
    }
    return out;
  },
  async run(sx: any) {
    const [place, chain, set, dflt, cli, int, mode, arg] = sx.case;
    const s: Setup = {
      place, int, arg, async: mode === 2, sync: mode === 0,
      src: chain.map((kind: any, i: number) => ({ kind, set: (set >> i & 1) === 1, dflt: dflt === 2 || dflt === 1 && i === chain.length - 1 })),
    };
    const text = (n: string) => sx.str(n, { max: 2, chars: CH });
    const val = (n: string, kind: string) => int ? (kind === "env" ? sx.str(n, { min: 1, max: 2, chars: CH }) : sx.int(n, -99, 99)) : text(n);
    const vals = s.src.map((x, i) => x.set ? val("v" + i, x.kind) : undefined);
    const dflts = s.src.map((x, i) => x.dflt ? (int ? sx.int("d" + i, -99, 99) : text("d" + i)) : undefined);
    const c = cli ? sx.str("cli", { min: 1, max: 2, chars: CH }) : undefined;
    const other = !PLACE[place].alone && sx.flag("other") ? sx.str("other", { len: 1, chars: CH }) : undefined;
    const seeds: any[] = [];
    const got = await runSources(sx, s, c, other, vals, dflts, (who, seed) => seeds.push([who, seed]));
    const want = expected(sx, s, c, vals, dflts);
    sx.cover(want.from);
    if (!want.ok && want.from !== "missing") sx.cover("refused");
    sx.observe("ok", got.ok);
    if (got.ok) sx.observe("value", PLACE[place].get(got.value));
    const where = want.from === "cli" ? "a value on the command line" : want.from === "env" ? "the environment's value" : want.from === "config" ? "the configuration's value" : want.from === "derived" ? "the derived value" : want.from === "default" ? "the default" : "absence";
    // known findings, kept apart
    const note = want.from !== "absent" ? "" : arg ? " (a positional under optional() or withDefault())" : place === "default" && chain.some((k: string) => k !== "env") ? " (withDefault() around a configuration or derived value)" : "";
    if (want.soft) {
      if (got.ok) {
        const v = PLACE[place].get(got.value);
        sx.assert(sx.or(v === ABSENT[place], ...dflts.filter((_: any, i: number) => s.src[i].dflt).map((d: any) => sx.and(typeof v === typeof d, sx.eq(v, d), ok(sx, s, d)))), where + " is used although it breaks the field's constraints");
      }
      return;
    }
    if (!want.ok) {
      sx.assert(!got.ok, where + " is accepted although it breaks the field's constraints or nothing is there" + note);
      sx.assert(got.exit.length === 1 && got.exit[0] === 1, "an error is not reported once with exit code 1" + note);
      return;
    }
    sx.assert(got.ok, where + " is not used: an error is reported" + note);
    sx.assert(sx.eq(PLACE[place].get(got.value), want.value), where + " is not what the program gets" + note);
    sx.assert(sx.eq(got.value.s, other), "another option's value is disturbed");
    // only the bound variable is looked up, under prefix and key
    for (const k of got.keys) sx.assert(sx.eq(k, "P_KEY"), "another environment variable is read");
    for (const [who, seed] of seeds) if (seed != null && other !== undefined) sx.assert(sx.eq(seed.s, other), who + " is computed from other values than those on the command line");
  },
};
