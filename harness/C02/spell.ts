import { parse } from "@optique/core/parser";
import { concat, conditional, group, longestMatch, merge, object, or, seq, tuple } from "@optique/core/constructs";
import { argument, command, constant, flag, option } from "@optique/core/primitives";
import { map, multiple, optional, withDefault } from "@optique/core/modifiers";
import { string } from "@optique/core/valueparser";

const F = () => ({
  a: option("-a", "--all"),
  b: multiple(flag("-b")),
  s: withDefault(option("-s", "--str", "/s", string()), "none"),
  l: multiple(option("--lst", "-lt", string())),
  x: argument(string()),
  y: multiple(argument(string())),
});
const O = () => { const { x, y, ...o } = F(); return o; };
const P = () => { const { x, y } = F(); return { x, y }; };
// composition -> parser, tokens that select it, where the fields end up
const WRAPS: Record<string, () => [any, string[], (v: any) => any]> = {
  object: () => [object(F()), [], (v) => v],
  tuple: () => [tuple([F().a, F().b, F().s, F().l, F().x, F().y]), [], ([a, b, s, l, x, y]: any) => ({ a, b, s, l, x, y })],
  merge: () => [merge(object(O()), group("pos", object(P()))), [], (v) => v],
  concat: () => [concat(tuple([F().a, F().b, F().s]), tuple([F().l, F().x, F().y])), [], ([a, b, s, l, x, y]: any) => ({ a, b, s, l, x, y })],
  nested: () => [object({ o: object(O()), p: map(object(P()), (p) => [p]) }), [], (v) => ({ ...v.o, ...v.p[0] })],
  command: () => [or(command("go", object(F())), command("no", object({ z: flag("-z") }))), ["go"], (v) => v],
  nestedCommand: () => [object({ g: option("-g"), c: command("up", command("go", object(F()), { aliases: ["g"] }) as any) }), ["up", "g"], (v) => v.c],
  or: () => [or(object({ k: constant("z"), z: flag("-z") }), object({ k: constant("f"), ...F() })), [], ({ k, ...v }: any) => v],
  longest: () => [longestMatch(object({ k: constant("f"), ...F() }), object({ k: constant("z"), z: flag("-z"), q: option("-q", string()) })), [], ({ k, ...v }: any) => v],
  optional: () => [optional(object(F())), [], (v) => v],
  seq: () => [seq(argument(string()), object(F())), ["first"], (v) => v[1]],
};
const SPLIT = new Set(["merge", "concat", "nested"]);
export default {
  name: "spell",
  bounds: "11 compositions of six fields; 1-4 intended items (two booleans, a string option, a repeated string option, positionals) each given with any spelling (separate or joined value, short, long, slash or single-dash-long name, bundled or separate flags), in any relative order of items that belong to different fields, with or without -- before the trailing positionals; values of 0-3 printable ASCII characters",
  assumptions: ["positional values before -- do not start with - or /", "a slash-named option comes first when a sibling sub-parser holds the positionals (slash.ts)"],
  covers: ["joined", "separate", "bundled", "terminator", "slash"],
  cases(tier: string) {
    const out: any[] = [];
    // which items, in order: a b s l x(positional)
    const plans = ["x", "ax", "bx", "sx", "xs", "lxl", "abx", "bbx", "xab", "asx", "bsx", "xsb", "llx", "xx", "xsx", "axlx", "bxsb", "slx", "lsx", "xxx", "absx", "xbas", "lxsx"];
    for (const w of Object.keys(WRAPS)) for (const p of plans) {
      if (tier === "quick" && w !== "object" && p.length > 3) continue;
      for (const n of tier === "quick" ? [1, 2] : [0, 1, 2, 3]) out.push([w, p, n]);
    }
    return out;
  },
  run(sx: any) {
    const [w, plan, len] = sx.case;
    const [p, prefix, get] = WRAPS[w]();
    const items: [string, any][] = [];
    let term = -1; // positionals from this item on come after --
    const npos = [...plan].filter((c) => c === "x").length;
    // a terminator is only possible when everything after it is positional
    let tail = plan.length;
    while (tail > 0 && plan[tail - 1] === "x") tail--;
    if (tail < plan.length && sx.flag("term")) { term = tail; sx.cover("terminator"); }
    const want: any = { a: false, b: [], s: "none", l: [], x: undefined, y: [] };
    let seen = 0;
    const args: string[] = [...prefix];
    for (let i = 0; i < plan.length; i++) {
      const c = plan[i];
      if (i === term) args.push("--");
      if (c === "a") { want.a = true; args.push(sx.choice("sp" + i, 2) ? "--all" : "-a"); }
      else if (c === "b") {
        want.b.push(true);
        const prev = plan[i - 1];
        if ((prev === "a" || prev === "b") && sx.is(args[args.length - 1][1] !== "-") && sx.flag("bundle" + i)) {
          args[args.length - 1] += "b";
          sx.cover("bundled");
        } else args.push("-b");
      } else if (c === "s") {
        const v = sx.str("v" + i, { len, chars: [[0x20, 0x7e]] });
        want.s = v;
        // see slash.ts for slash names after a positional of another sub-parser
        const k = sx.choice("sp" + i, SPLIT.has(w) && i > 0 ? 3 : 5);
        if (k === 0) args.push("-s", v);
        else if (k === 1) args.push("--str", v);
        else if (k === 2) { args.push("--str=" + v); sx.cover("joined"); }
        else if (k === 3) args.push("/s", v);
        else { args.push("/s:" + v); sx.cover("slash"); }
      } else if (c === "l") {
        const v = sx.str("v" + i, { len, chars: [[0x20, 0x7e]] });
        want.l.push(v);
        const k = sx.choice("sp" + i, 4);
        if (k === 0) args.push("--lst", v);
        else if (k === 1) { args.push("-lt", v); sx.cover("separate"); }
        else if (k === 2) args.push("--lst=" + v);
        else args.push("-lt=" + v);
      } else {
        const v = sx.str("v" + i, { len, chars: [[0x20, 0x7e]] });
        if (term < 0 || i < term) { if (len > 0) sx.assume(sx.not(sx.charIn(v[0], "-/"))); }
        if (seen++ === 0) want.x = v; else want.y.push(v);
        args.push(v);
      }
    }
    const r = parse(p, args) as any;
    sx.observe("ok", r.success);
    if (r.success) sx.observe("v", r.value);
    sx.assert(r.success, "a correct command line is rejected because of how it is spelled or ordered");
    sx.assert(sx.eq(get(r.value), want), "the spelling or order of the tokens changes what they mean");
  },
};
