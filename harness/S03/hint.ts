import { concat, conditional, group, longestMatch, merge, object, or, seq, tuple } from "@optique/core/constructs";
import { argument, command, constant, flag, negatableFlag, option } from "@optique/core/primitives";
import { multiple, optional } from "@optique/core/modifiers";
import { choice, string } from "@optique/core/valueparser";
import { parse, parseAsync } from "@optique/core/parser";
import { suggestSync } from "@optique/core/parser";

function distance(sx: any, a: string, b: string): number {
  const memo = new Map<number, number>();
  const go = (i: number, j: number): number => {
    if (i === a.length) return b.length - j;
    if (j === b.length) return a.length - i;
    const k = i * 64 + j, known = memo.get(k);
    if (known !== undefined) return known;
    const r = sx.is(sx.eq(a[i], b[j])) ? go(i + 1, j + 1) : 1 + Math.min(go(i + 1, j), go(i, j + 1), go(i + 1, j + 1));
    memo.set(k, r);
    return r;
  };
  return go(0, 0);
}
const o: any = option, c: any = command, f: any = flag;
const add = () => c("add", object({ num: o("--num"), q: o("--quiet") }), { aliases: ["plus"] });
const rem = () => c("remove", or(c("all", object({ force: f("--force"), back: o("--Back", string()) })), c("alt", constant(1))));
const hid = () => c("adx", constant(3), { hidden: true });
const sub = ["--num", "--quiet", "--force", "--Back"], cmds = ["add", "plus", "remove"], subcmds = ["all", "alt"];
/** program: its visible names; positions (words before) with the names that may come there, when every near name must be hinted; typed words */
type G = { make: () => any; names: string[]; at: [string[], string[] | null, string[]][] };
const GS: Record<string, G> = {
  options: { make: () => object({ v: o("-v", "--verbose"), w: o("--version"), s: o("--verbosx", { hidden: true }), h: o("--verbotim", { hidden: "help" }), d: o("--verbode", { hidden: "doc" }), u: optional(f("--ver", { hidden: "usage" })) }), names: ["-v", "--verbose", "--version", "--verbotim", "--verbode", "--ver"],
    at: [[[], ["-v", "--verbose", "--version", "--verbotim", "--verbode", "--ver"], ["--verbos@", "-@", "--ver@@", "--@erbose", "/@@", "--v@rsi@n"]], [["-v"], null, ["--ver@o@e"]]] },
  negatable: { make: () => object({ n: negatableFlag({ positive: "--color", negative: "--no-color" }), m: multiple(o("--Mode", string())) }), names: ["--color", "--no-color", "--Mode"], at: [[[], ["--color", "--no-color", "--Mode"], ["--co@or", "--no-col@@", "--m@d@", "-@"]], [["--Mode", "x"], null, ["--m@d"]]] },
  commands: { make: () => object({ g: o("--glob"), c: or(add(), rem(), hid()) }), names: ["--glob", ...sub, ...cmds, ...subcmds],
    at: [[[], ["--glob", ...cmds], ["a@@", "@lus", "re@o@e", "--g@ob", "al@", "--nu@"]], [["--glob"], cmds, ["ad@@", "pl@"]], [["add"], ["--num", "--quiet", "--glob"], ["--n@m", "--@lob", "--q@iet", "--@"]], [["remove"], ["all", "alt"], ["al@", "a@", "a@l@"]], [["remove", "all"], ["--force", "--Back", "--glob"], ["--forc@", "--b@ck", "--glo@"]]] },
  alternatives: { make: () => or(add(), rem(), hid()), names: [...sub, ...cmds, ...subcmds], at: [[[], cmds, ["a@@", "@lus", "re@o@e", "--n@m", "al@"]], [["add"], null, ["--n@m", "--q@iet"]], [["remove"], null, ["al@"]]] },
  oneOf: { make: () => or(object({ a: f("--alpha") }), object({ b: f("--beta"), h: o("--bets", { hidden: true }) }), group("G", object({ d: f("--delta") }), { hidden: true } as any)), names: ["--alpha", "--beta"], at: [[[], ["--alpha", "--beta"], ["--al@ha", "--bet@", "--delt@", "--@@ta"]]] },
  longest: { make: () => longestMatch(object({ a: f("--alpha") }), object({ c: add() })), names: ["--alpha", "add", "plus", ...sub], at: [[[], ["--alpha", "add", "plus"], ["--al@ha", "a@d", "pl@s"]]] },
  merged: { make: () => merge(object({ a: o("--alpha") }), object({ b: optional(o("--beta", string())), h: o("--bets", { hidden: true }) })), names: ["--alpha", "--beta"], at: [[[], null, ["--al@ha", "--bet@"]], [["--alpha"], null, ["--be@a"]]] },
  tuple: { make: () => tuple([o("--alpha"), or(add(), hid())]), names: ["--alpha", "add", "plus", ...sub], at: [[[], null, ["--al@ha", "a@d"]], [["--alpha"], null, ["ad@"]]] },
  seq: { make: () => seq(object({ a: o("--alpha") }), or(add(), rem(), hid())), names: ["--alpha", ...cmds, ...subcmds, ...sub], at: [[[], null, ["--al@ha", "a@d", "re@ove"]], [["--alpha"], cmds, ["ad@", "rem@ve"]]] },
  conditional: { make: () => conditional(o("--type", choice(["aa", "bb"])), { aa: object({ x: o("--xray") }), bb: object({ y: o("--yell") }) }), names: ["--type", "--xray", "--yell"], at: [[[], null, ["--typ@", "--xra@"]], [["--type", "aa"], ["--xray"], ["--xra@", "--x@y", "--@ray"]]] },
  concat: { make: () => concat(tuple([o("--alpha")]), tuple([multiple(o("--beta", string())), multiple(argument(choice(["k"])))])), names: ["--alpha", "--beta"], at: [[[], null, ["--alp@a", "k@"]]] },
  deep: { make: () => object({ a: optional(c("outer", object({ g: o("--glob"), h: o("--glop", { hidden: true }), i: c("inner", object({ d: o("--deep"), e: o("--dees", { hidden: true }) })) }))) }), names: ["outer", "inner", "--deep", "--glob"], at: [[[], ["outer"], ["oute@", "o@@er"]], [["outer"], ["inner", "--glob"], ["inne@", "--glo@"]], [["outer", "inner"], ["--deep", "--glob"], ["--dee@", "--glo@", "--d@ep"]]] },
};
const HIDDEN = ["--verbosx", "--bets", "adx", "--glop", "--dees", "--delta"];
const alias: Record<string, string> = { plus: "add" };
export default {
  name: "hint",
  bounds: "12 programs over all combinators with visible and hidden options, commands and aliases; at up to 5 positions, words of 2-9 characters near and far from their names, with 1-2 symbolic characters",
  assumptions: ["the symbolic characters are printable ASCII", "that a near name must be hinted is decided for objects, commands and their alternatives (merge(), tuple(), concat() give no hints)"],
  covers: ["one", "several", "none", "accepted", "alias", "hidden is near"],
  cases() {
    const out: any[] = [];
    for (const [k, g] of Object.entries(GS)) g.at.forEach((a, i) => a[2].forEach((w) => out.push([k, i, w])));
    return out;
  },
  async run(sx: any) {
    const [k, at, tmpl] = sx.case;
    const g = GS[k], [before, valid] = g.at[at];
    let n = 0, w = "";
    // the letters of the names, each case, or any other character
    const letters = [...new Set([...g.names.join(""), "x", "S", "P"])], other: number[] = [];
    for (let x = 0x21; x < 0x7f; x++) if (x !== 0x3d && !letters.some((l) => l.toLowerCase() === String.fromCharCode(x).toLowerCase())) other.push(x);
    for (const ch of tmpl) {
      if (ch !== "@") { w += ch; continue; }
      const i = sx.choice("c" + n, letters.length + 1);
      w += i < letters.length ? letters[i] : sx.str("o" + n, { len: 1, chars: other });
      n++;
    }
    const p = g.make(), args = [...before, w];
    const r: any = parse(p, args);
    const ra: any = await parseAsync(p, args);
    sx.assert(sx.eq(r, ra), "the asynchronous error is another");
    if (r.success) { sx.cover("accepted"); return; }
    const e = r.error, start = e.findIndex((t: any) => t.type === "text" && t.text.includes("Did you mean"));
    const got: string[] = start < 0 ? [] : e.slice(start).filter((t: any) => t.type === "optionName").map((t: any) => t.optionName);
    sx.assert(start < 0 || got.length > 0, "a hint names nothing");
    const low = w.toLowerCase();
    const near = (x: string) => { const d = distance(sx, low, x.toLowerCase()); return d <= 3 && d / w.length <= 0.5 ? d : Infinity; };
    let best = Infinity;
    for (const h of got) {
      sx.assert(g.names.includes(h), "a hint names what is hidden or does not exist: " + h);
      let d = near(h);
      for (const [a, name] of Object.entries(alias)) if (name === h && g.names.includes(a)) { if (near(a) < d) sx.cover("alias"); d = Math.min(d, near(a)); }
      sx.assert(d !== Infinity, "a hint names what is not near");
      best = Math.min(best, d);
    }
    sx.assert(new Set(got).size === got.length && got.length <= 4, "a hint names too much");
    sx.cover(got.length === 0 ? "none" : got.length === 1 ? "one" : "several");
    if (HIDDEN.some((h) => near(h) <= 1)) sx.cover("hidden is near");
    if (valid) {
      const want = Math.min(...valid.map(near));
      // (a name typed right is not what is wrong)
      if (want !== Infinity && ![...g.names, ...HIDDEN].includes(w)) sx.assert(best <= want, "the nearest name is not hinted");
    }
  },
};
