import { formatUsage, formatUsageTerm } from "@optique/core/usage";
import { plain } from "../_lib/lines.ts";

const o = (...names: string[]) => ({ type: "option", names }), om = (m: string, ...names: string[]) => ({ type: "option", names, metavar: m });
const a = (metavar: string) => ({ type: "argument", metavar }), c = (name: string, ...x: any[]) => ({ type: "command", name, ...x[0] });
const opt = (...terms: any[]) => ({ type: "optional", terms }), many = (min: number, ...terms: any[]) => ({ type: "multiple", min, terms });
const or = (...terms: any[][]) => ({ type: "exclusive", terms }), seq = (...terms: any[]) => ({ type: "sequence", terms });
const lit = (value: string) => ({ type: "literal", value }), h = (t: any, hidden: any) => ({ ...t, hidden });
const pass = { type: "passthrough" }, dots = { type: "ellipsis" };
// trees, "@" standing for a free letter of a name
const TREES: [any[], string[]][] = [
  [[o("--@@")], ["--@@"]],
  [[o("-@", "--a@"), a("A@")], ["-@", "/", "--a@", " ", "A@"]],
  [[opt(om("V@", "-@", "--b@"))], ["[", "-@", "/", "--b@", " ", "V@", "]"]],
  [[a("X@"), o("-@"), c("@d")], ["@d", " ", "-@", " ", "X@"]], // commands first, arguments last
  [[opt(a("A@")), o("-b")], ["-b", " ", "[", "A@", "]"]],
  [[many(0, a("@A"))], ["[", "@A", "...", "]"]],
  [[many(1, om("N", "-@"))], ["-@", " ", "N", "..."]],
  [[many(2, a("@"))], ["@", " ", "@", "..."]],
  [[or([c("a@")], [c("b@"), a("X")], [o("-@")])], ["(", "a@", " ", "|", " ", "b@", " ", "X", " ", "|", " ", "-@", ")"]],
  [[or([or([o("-@")], [a("B@")])], [c("c")])], ["(", "-@", " ", "|", " ", "B@", " ", "|", " ", "c", ")"]],
  [[or([or([o("-@")], [o("-b")]), a("R@")], [c("c")])], ["(", "-@", " ", "R@", " ", "|", " ", "-b", " ", "R@", " ", "|", " ", "c", ")"]],
  [[opt(opt(a("@@")))], ["[", "@@", "]"]],
  [[seq(a("X@"), o("-@")), pass], ["X@", " ", "-@", " ", "[...]"]],
  [[lit("@@"), dots], ["@@", " ", "..."]],
  [[h(o("--s@"), true), o("--a@"), h(a("HID@"), "usage"), h(c("x@"), "help"), h(om("D", "-@"), "doc")], ["--a@", " ", "-@", " ", "D"]],
  [[or([h(c("a@"), true), a("X")], [c("b@")]), opt(h(o("-@"), "usage")), many(1, h(a("@"), "help"))], ["(", "b@", ")"]],
  [[or([h(o("-@"), false), h(o("-x"), "usage")], [h(o("--b@"), "doc")])], ["(", "-@", " ", "|", " ", "--b@", ")"]],
  [[], []],
];
/** expanded: one line per command */
const EXP: [any[], string[][]][] = [
  [[or([c("a@"), a("X@")], [c("b@")], [o("-@")])], [["a@", " ", "X@"], ["b@"], ["-@"]]],
  [[c("t"), or([c("a@")], [h(c("z@"), true), a("Q")], [opt(c("o@"))])], [["t", " ", "a@"], ["t", " ", "[", "o@", "]"]]],
  [[or([h(c("a@"), "doc"), h(o("-@"), "usage")], [a("F@")])], [["a@"], ["F@"]]],
  [[o("-@"), or([c("a@")], [c("b@")])], [["-@", " ", "(", "a@", " ", "|", " ", "b@", ")"]]],
];
export default {
  name: "usage",
  bounds: "22 usage trees over all kinds of terms (nested, repeated, exclusive, hidden in each way), names with 1-3 symbolic letters; plain and in colours, with all names or the shortest, expanded commands; widths 4-24 (thorough: 3-40) and none",
  assumptions: ["names are ASCII"],
  covers: ["wrapped", "one line", "too wide", "expanded", "shortest"],
  cases(tier: string) {
    const out: any[] = [];
    const widths = tier === "quick" ? [0, 4, 6, 8, 11, 15, 24] : [0, ...Array.from({ length: 38 }, (_, i) => i + 3)];
    TREES.forEach((_, i) => widths.forEach((w) => out.push(["tree", i, w])));
    EXP.forEach((_, i) => widths.forEach((w) => out.push(["expand", i, w])));
    for (const w of widths) out.push(["short", 0, w]);
    return out;
  },
  run(sx: any) {
    const [what, at, width] = sx.case;
    let n = 0;
    const made = new Map<string, string>();
    const put = (t: string): string => {
      if (!t.includes("@")) return t;
      if (!made.has(t)) { let r = ""; for (const ch of t) r += ch === "@" ? sx.str("n" + n++, { len: 1, chars: /[A-Z]/.test(t) ? [["A", "Z"]] : [["a", "z"]] }) : ch; made.set(t, r); }
      return made.get(t)!;
    };
    const build = (x: any): any => Array.isArray(x) ? x.map(build) : typeof x === "string" ? put(x) : x !== null && typeof x === "object" ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, k === "type" || k === "hidden" || k === "min" ? v : build(v)])) : x;
    const prog = "my" + put("p@");
    /** one usage, as words: a line may be broken before any part, blanks at the break vanish */
    const check = (got: string, parts: string[]) => {
      const p = parts.map(put);
      let i = 0, col = 0, broke = false, inLine = 0, fits = true;
      const take = (w: string, k: number) => {
        // the break, or nothing, before part k
        if (width > 0 && got[i] === "\n") { i++; broke = true; col = 0; inLine = 0; if (w === " ") return; }
        if (w === " " && width > 0 && p[k + 1] !== undefined && got[i] !== " ") { if (got[i] === "\n") return; sx.fail("a blank of the usage is lost"); }
        sx.assert(got.length >= i + w.length && sx.eq(got.slice(i, i + w.length), w), "a term of the usage is missing, changed or out of place");
        i += w.length; col += w.length; if (w !== " ") inLine++;
        if (width > 0 && col > width && inLine > 1) fits = false;
      };
      sx.assert(sx.eq(got.slice(0, prog.length), prog), "the program name is missing");
      i = col = prog.length; inLine = 1;
      if (p.length) {
        if (got[i] === " ") { i++; col++; }
        p.forEach((w, k) => take(w, k));
      } else if (got[i] === " ") i++;
      sx.assert(i === got.length, "the usage goes on after its last term");
      sx.assert(fits, "a line is wider than asked although it could be broken");
      sx.cover(broke ? "wrapped" : "one line");
      if (width > 0 && col > width) sx.cover("too wide");
    };
    const w = width > 0 ? { maxWidth: width } : {};
    if (what === "short") {
      const usage: any = build([om("V", "-@", "--b@", "--c"), opt(o("--dd@", "--e@"))]);
      sx.cover("shortest");
      check(formatUsage(prog, usage, { ...w, onlyShortestOptions: true } as any), ["-@", " ", "[", "--e@", "]"]);
      return;
    }
    const [tree, want] = what === "tree" ? TREES[at] : EXP[at];
    const usage: any = build(tree), copy = JSON.stringify(usage);
    const got = formatUsage(prog, usage, { ...w, expandCommands: what === "expand" } as any);
    const colored = formatUsage(prog, usage, { ...w, expandCommands: what === "expand", colors: true } as any);
    sx.assert(JSON.stringify(usage) === copy, "formatting changes the usage");
    if (what === "tree") {
      check(got, want as string[]);
      if (width === 0 && usage.length === 1 && want.length && ![9, 10, 11].includes(at)) sx.assert(sx.eq(formatUsageTerm(usage[0]), (want as string[]).map(put).join("")), "a single term is written differently");
    } else if (width === 0) {
      sx.cover("expanded");
      const lines = got.split("\n");
      sx.assert(lines.length === want.length, "not one line per command");
      (want as string[][]).forEach((ps, k) => check(lines[k], ps));
    }
    const strip = (s: string) => { let r = ""; for (const ch of s) if (ch !== " " && ch !== "\n") r += ch; return r; };
    sx.assert(sx.eq(strip(plain(sx, colored)), strip(got)), "colours change the usage");
    if (width === 0) sx.assert(sx.eq(plain(sx, colored), got), "colours change the usage");
    sx.assert(sx.eq(plain(sx, colored).length, got.length), "colours change the layout of the usage");
  },
};
