import { concat, group, longestMatch, merge, object, or, seq, tuple } from "@optique/core/constructs";
import { argument, command, constant, flag, negatableFlag, option, passThrough } from "@optique/core/primitives";
import { map, multiple, nonEmpty, optional, withDefault } from "@optique/core/modifiers";
import { choice, string } from "@optique/core/valueparser";
import { formatUsage } from "@optique/core/usage";
import { getDocPage, parse, suggestSync } from "@optique/core/parser";
import { message } from "@optique/core/message";

const HID = [undefined, false, true, "usage", "doc", "help"];
const places = (h: any): string[] => h === true ? ["usage", "doc", "sugg"] : h === "help" ? ["usage", "doc"] : h ? [h] : [];
type Target = { make: (l: string, hidden: any) => any; usage: (l: string) => string; args: (l: string) => string[]; sugg?: (l: string) => string[]; term: (t: any, l: string, sx: any) => boolean; val?: (l: string, v: string) => string[] };
const opt: any = option, flg: any = flag, cmd: any = command, arg: any = argument, neg: any = negatableFlag;
const has = (sx: any, xs: readonly string[], x: string) => xs.some((y) => sx.is(sx.eq(x, y)));
const TARGETS: Record<string, Target> = {
  opt: { make: (l, hidden) => opt("--x" + l, string(), { hidden, description: message`D` }), usage: (l) => "--x" + l, args: (l) => ["--x" + l, "v"], sugg: (l) => ["--x" + l], term: (t, l, sx) => t.type === "option" && has(sx, t.names, "--x" + l) },
  bool: { make: (l, hidden) => opt("-" + l, "/y" + l, { hidden, description: message`D` }), usage: (l) => "-" + l + "/", args: (l) => ["-" + l], sugg: (l) => ["-" + l, "/y" + l], term: (t, l, sx) => t.type === "option" && has(sx, t.names, "-" + l) },
  flag: { make: (l, hidden) => flg("--f" + l, { hidden, description: message`D` }), usage: (l) => "--f" + l, args: (l) => ["--f" + l], sugg: (l) => ["--f" + l], term: (t, l, sx) => t.type === "option" && has(sx, t.names, "--f" + l) },
  neg: { make: (l, hidden) => neg({ positive: "--y" + l, negative: "--n" + l }, { hidden, description: message`D` }), usage: (l) => "--n" + l, args: (l) => ["--n" + l], sugg: (l) => ["--y" + l, "--n" + l], term: (t, l, sx) => t.type === "option" && has(sx, t.names, "--n" + l) },
  arg: { make: (l, hidden) => arg(choice(["k" + l, "j"], { metavar: "MM" } as any), { hidden, description: message`D` }), usage: () => "MM", args: (l) => ["k" + l], sugg: (l) => ["k" + l], term: (t) => t.type === "argument" && t.metavar === "MM" },
  cmd: { make: (l, hidden) => cmd("c" + l, constant(7), { hidden, description: message`D` }), usage: (l) => "c" + l, args: (l) => ["c" + l], sugg: (l) => ["c" + l], term: (t, l, sx) => t.type === "command" && sx.is(sx.eq(t.name, "c" + l)) },
  pass: { make: (_l, hidden) => (passThrough as any)({ hidden, description: message`D` }), usage: () => "[...]", args: (l) => ["--u" + l + "=v"], term: (t) => t.type === "passthrough" },
};
const other = () => optional(opt("--zz"));
/** contexts: the parser, given the target and the settings of the wrappers */
const CONTEXTS: Record<string, [number, (t: any, h: any, h2: any) => any]> = {
  object: [0, (t) => object({ t, o: other() })],
  objectH: [1, (t, h) => merge(object({ t }, { hidden: h } as any), object({ o: other() }))],
  namedH: [1, (t, h) => merge(object("N", { t }, { hidden: h } as any), object({ o: other() }))],
  groupH: [1, (t, h) => merge((group as any)("G", object({ t }), { hidden: h }), object({ o: other() }))],
  groupField: [1, (t, h) => object({ t: (group as any)("G", t, { hidden: h }), o: other() })],
  mergeH: [1, (t, h) => merge((merge as any)(object({ t }), object({ u: constant(1) }), { hidden: h }), object({ o: other() }))],
  nested: [2, (t, h, h2) => merge((group as any)("G", object({ i: object({ t }, { hidden: h } as any) }), { hidden: h2 }), object({ o: other() }))],
  nestedGroups: [2, (t, h, h2) => object({ t: (group as any)("G", (group as any)("I", tuple([t]), { hidden: h }), { hidden: h2 }), o: other() })],
  optional: [1, (t, h) => merge(object({ t: optional(t) }, { hidden: h } as any), object({ o: other() }))],
  multiple: [1, (t, h) => merge((group as any)("G", object({ t: multiple(t) }), { hidden: h }), object({ o: other() }))],
  withDefault: [1, (t, h) => object({ t: (group as any)("G", withDefault(map(t, (v: any) => [v]), ["d"]), { hidden: h }), o: other() })],
  or: [1, (t, h) => or((group as any)("G", object({ t }), { hidden: h }), object({ o: opt("--zz") }))],
  longest: [1, (t, h) => longestMatch(object({ t, o: other() }, { hidden: h } as any), object({ o: opt("--zz"), p: optional(opt("--zp")) }))],
  tuple: [1, (t, h) => tuple([(group as any)("G", nonEmpty(t), { hidden: h }), other()])],
  concat: [1, (t, h) => concat((group as any)("G", tuple([t]), { hidden: h }), tuple([other()]))],
  seq: [1, (t, h) => seq((group as any)("G", t, { hidden: h }), object({ o: other() }))],
};
export default {
  name: "hidden",
  bounds: "7 kinds of parsers in 16 arrangements of wrappers, one symbolic letter in the names, every hidden setting of the parser and of a wrapper around it, with two (thorough: all) settings of a second wrapper",
  assumptions: ["names are letters a-w"],
  covers: ["usage", "doc", "sugg", "shown everywhere", "hidden everywhere"],
  cases(tier: string) {
    const out: any[] = [];
    for (const t of Object.keys(TARGETS)) for (const c of Object.keys(CONTEXTS)) {
      if (t === "pass" && c === "multiple") continue; // both repeat
      if (t === "bool" && c === "multiple") continue;
      out.push([t, c, tier === "quick" ? 1 : 0]);
    }
    return out;
  },
  run(sx: any) {
    const [tk, ck, quick] = sx.case;
    const T = TARGETS[tk], [n, C] = CONTEXTS[ck];
    const own = HID[sx.choice("own", HID.length)], h1 = n > 0 ? HID[sx.choice("outer", HID.length)] : undefined;
    const h2 = n > 1 ? HID[quick ? [2, 3][sx.choice("outermost", 2)] : sx.choice("all", HID.length)] : undefined;
    const l = sx.str("l", { len: 1, chars: [["a", "w"]] });
    const gone = new Set([...places(own), ...places(h1), ...places(h2)]);
    const p = C(T.make(l, own), h1, h2);
    for (const g of gone) sx.cover(g);
    sx.cover(gone.size === 0 ? "shown everywhere" : gone.size === 3 ? "hidden everywhere" : gone.values().next().value);
    const usage = formatUsage("p", p.usage);
    const contains = (s: string, x: string) => { for (let i = 0; i + x.length <= s.length; i++) if (sx.is(sx.eq(s.slice(i, i + x.length), x))) return true; return false; };
    sx.assert(contains(usage, T.usage(l)) !== gone.has("usage"), gone.has("usage") ? "a parser hidden from the usage is in it" : "a visible parser is missing in the usage");
    sx.assert(contains(usage, "--zz"), "another parser is missing in the usage");
    const page: any = getDocPage(p), es = page.sections.flatMap((s: any) => s.entries);
    const mine = es.filter((e: any) => T.term(e.term, l, sx));
    sx.assert((mine.length > 0) !== gone.has("doc"), gone.has("doc") ? "a parser hidden from the help page is on it" : "a visible parser is missing on the help page");
    sx.assert(mine.length <= (ck === "or" || ck === "longest" ? 2 : 1), "a parser is twice on the help page");
    for (const e of mine) sx.assert(e.description?.length === 1 && e.description[0].text === "D", "a description is missing on the help page");
    sx.assert(es.some((e: any) => e.term.type === "option" && e.term.names.includes("--zz")), "another parser is missing on the help page");
    sx.assert(sx.eq(formatUsage("p", page.usage), usage), "the help page's usage is another");
    if (T.sugg) for (const s of T.sugg(l)) {
      for (const prefix of s[0] === "-" || s[0] === "/" ? [s.slice(0, s[1] === "-" ? 2 : 1), s.slice(0, 2)] : ["", s[0]]) {
        const got = suggestSync(p, [prefix]).some((x: any) => x.kind === "literal" && sx.is(sx.eq(x.text, s)));
        sx.assert(got !== gone.has("sugg"), gone.has("sugg") ? "a parser hidden from completion is offered" : "a visible parser is not offered by completion");
      }
    }
    if (ck !== "seq") sx.assert(suggestSync(p, ["--z"]).some((x: any) => x.text === "--zz"), "another parser is not offered by completion");
    // it still works as if it were not hidden
    const bare = C(T.make(l, undefined), undefined, undefined);
    for (const args of [T.args(l), [...T.args(l), "--zz"], [], ["--zz"], ["--zz", ...T.args(l)]]) {
      const a: any = parse(p, args), b: any = parse(bare, args);
      sx.assert(a.success === b.success && (!a.success || sx.is(sx.eq(a.value, b.value))), "hiding a parser changes what is accepted");
    }
    sx.assert((parse(p, T.args(l)) as any).success, "a hidden parser no longer works");
  },
};
