import { formatDocPage } from "@optique/core/doc";
import { lineBreak, text, value, valueSet, message } from "@optique/core/message";
import { plain } from "../_lib/lines.ts";

const o = (...names: string[]) => ({ type: "option", names }), om = (m: string, ...names: string[]) => ({ type: "option", names, metavar: m });
const a = (metavar: string) => ({ type: "argument", metavar }), c = (name: string) => ({ type: "command", name });
const h = (t: any, hidden: any) => ({ ...t, hidden });
// an entry: the term, how it reads, a description, a default, choices ("@": a free letter)
type E = [any, string, string, string?, string[]?];
type P = { brief?: string; desc?: string; sections: [string | undefined, E[]][]; order: number[]; tail?: Record<string, string> };
const flag: E = [o("-@", "--a@"), "-@, --a@", "Do @ it"], file: E = [a("FI@"), "FI@", "The @ file", "d@f"], cmd: E = [c("go@"), "go@", "Goes @"];
const fmt: E = [om("F", "--f@"), "--f@ F", "Pick @", "@s", ["@s", "ya@", "x"]], bare: E = [o("--q@"), "--q@", ""], long: E = [om("VALUE", "--long-option", "--longer-@"), "--long-option, --longer-@ VALUE", "Far @ out\nand on", "z@"];
const gone: E = [h(o("--s@"), true), "", "Secret"], gone2: E = [h(a("HI@"), "doc"), "", "No"], gone3: E = [h(c("h@"), "help"), "", "No"], kept: E = [h(o("--u@"), "usage"), "--u@", "Yes @"];
const none: E = [o("--n@"), "--n@", "", "@", ["1@", "2"]];
const PAGES: P[] = [
  { sections: [[undefined, [flag, file, bare]]], order: [0] },
  { brief: "In @ short", desc: "At @ length", sections: [["Opt@", [flag, gone, fmt]], [undefined, [file]]], order: [1, 0] },
  { sections: [["Opt@", [flag]], ["Co@", [cmd, gone2]], ["Mix@", [cmd, fmt]]], order: [1, 2, 0] },
  { sections: [[undefined, [fmt]], ["Co@", [cmd]], [undefined, [cmd, flag]], [undefined, [[c("r@"), "r@", "Run"]]]], order: [3, 1, 2, 0] },
  { sections: [["A@", [gone, gone3]], ["B@", [long, kept, none]]], order: [1] },
  { sections: [["A@", []], [undefined, [gone2]]], order: [], tail: { examples: "x@ y\nz", author: "M@ E\nF@", bugs: "a@ b\nc", footer: "b@ ye\nn@" } },
  { brief: "B@", sections: [["Sec@", [none, fmt]]], order: [0], tail: { bugs: "re@ port", footer: "e@" } },
];
type Opt = { d?: any; c?: any; ind?: number; tw?: number; usage?: boolean };
const OPTS: Opt[] = [{}, { d: true, c: true }, { d: { prefix: " (def ", suffix: ")" }, c: { prefix: " {", suffix: "}", label: "", maxItems: 2 } }, { d: true, ind: 4, tw: 8 }, { c: { maxItems: 1 }, usage: false, tw: 5 }];
export default {
  name: "page",
  bounds: "7 help pages of 1-4 sections with options, arguments and commands (some hidden), with descriptions, defaults and choices, 5-20 symbolic letters; 5 ways to show defaults and choices; widths 24-60 (thorough: 12-90) and none; plain and in colours",
  assumptions: ["the letters are a-z and A-Z", "a page may be refused (documented RangeError) only for widths below term column + gap + the longest prefix"],
  covers: ["wrapped", "one line", "refused", "cut choices", "hidden", "wide term"],
  cases(tier: string) {
    const out: any[] = [];
    const widths = tier === "quick" ? [0, 24, 33, 42, 60] : [0, ...Array.from({ length: 40 }, (_, i) => 12 + 2 * i)];
    PAGES.forEach((_, i) => OPTS.forEach((_, j) => widths.forEach((w) => out.push([i, j, w]))));
    return out;
  },
  run(sx: any) {
    const [pi, oi, width] = sx.case;
    const P = PAGES[pi], O = OPTS[oi];
    const made = new Map<string, string>();
    let n = 0;
    const put = (t: string): string => {
      if (!t.includes("@")) return t;
      if (!made.has(t)) { let r = ""; for (const ch of t) r += ch === "@" ? sx.str("n" + n++, { len: 1, chars: /^[A-Z]+@$/.test(t) ? [["A", "Z"]] : [["a", "z"]] }) : ch; made.set(t, r); }
      return made.get(t)!;
    };
    const build = (x: any): any => Array.isArray(x) ? x.map(build) : typeof x === "string" ? put(x) : x !== null && typeof x === "object" ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, k === "type" || k === "hidden" ? v : build(v)])) : x;
    // the term's text and the term agree on their letters: names are made from their own templates
    const reads = (t: string) => t.split(/(, | )/).map(put).join("");
    const msg = (t: string): any[] => put(t).split("\n").flatMap((l: string, i: number) => i ? [lineBreak(), text(l)] : [text(l)]);
    const under = (t: string, n: number) => t.split("\n").join("\n" + " ".repeat(n));
    const page: any = {
      ...(P.brief && { brief: [text(put(P.brief))] }), ...(P.desc && { description: [text(put(P.desc))] }),
      usage: build([o("--u@")]),
      sections: P.sections.map(([title, es]) => ({ ...(title !== undefined && { title: put(title) }), entries: es.map(([t, , d, df, ch]) => ({
        term: build(t), ...(d && { description: msg(d) }), ...(df !== undefined && { default: [text(put(df))] }),
        ...(ch && { choices: ch.flatMap((x, i) => i ? [text(", "), value(put(x))] : [value(put(x))]) }),
      })) })),
      ...Object.fromEntries(Object.entries(P.tail ?? {}).map(([k, v]) => [k, msg(v)])),
    };
    const opts: any = { showDefault: O.d, showChoices: O.c, termIndent: O.ind, termWidth: O.tw, showUsage: O.usage, ...(width > 0 && { maxWidth: width }) };
    const ind = O.ind ?? 2, tw = O.tw ?? 26;
    // the page as it should read
    let want = "";
    const blocks: [string, string][] = []; // term and description of each entry
    if (P.brief) want += put(P.brief) + "\n";
    if (O.usage !== false) want += "Usage: prog " + put("--u@") + "\n";
    if (P.desc) want += "\n" + put(P.desc) + "\n";
    for (const s of P.order) {
      const [title, es] = P.sections[s];
      want += "\n" + (title === undefined ? "" : put(title) + ":\n");
      for (const [t, r, d, df, ch] of es) {
        if (t.hidden !== undefined && t.hidden !== "usage") { sx.cover("hidden"); continue; }
        let s = put(d);
        if (O.d && df !== undefined) s += (O.d.prefix ?? " [") + put(df) + (O.d.suffix ?? "]");
        if (O.c && ch) {
          const max = O.c.maxItems ?? 8;
          if (ch.length > max) sx.cover("cut choices");
          s += (O.c.prefix ?? " (") + (O.c.label ?? "choices: ") + ch.slice(0, max).map(put).join(", ") + (ch.length > max ? ", ..." : "") + (O.c.suffix ?? ")");
        }
        const term = reads(r);
        if (term.length > tw) sx.cover("wide term");
        blocks.push([term, s]);
        s = under(s, ind + tw + 2);
        want += " ".repeat(ind) + (s === "" ? term : term.length >= tw ? term + "  " + s : term + " ".repeat(tw - term.length) + "  " + s);
        if (s === "" && term.length < tw) want += " ".repeat(tw - term.length);
        want += "\n";
      }
    }
    for (const [k, label] of [["examples", "Examples"], ["author", "Author"], ["bugs", "Bugs"]]) if (P.tail?.[k]) want += "\n" + label + ":\n  " + under(put(P.tail[k]), 2) + "\n";
    if (P.tail?.footer) want += "\n" + put(P.tail.footer);
    let got: string;
    try { got = formatDocPage("prog", page, opts); }
    catch (e: any) {
      sx.assert(e instanceof RangeError && width > 0 && width < ind + tw + 2 + Math.max(1, O.d ? (O.d.prefix ?? " [").length : 0, O.c ? (O.c.prefix ?? " (").length + (O.c.label ?? "choices: ").length : 0), "a help page is refused: " + (e as Error).message);
      sx.cover("refused");
      return;
    }
    const trimEnds = (s: string) => s.split("\n").map((l) => { let e = l.length; while (e > 0 && l[e - 1] === " ") e--; return l.slice(0, e); }).join("\n");
    const solid = (s: string) => { let r = ""; for (const ch of s) if (ch !== " " && ch !== "\n") r += ch; return r; };
    if (width === 0) {
      sx.cover("one line");
      sx.assert(sx.eq(trimEnds(got), trimEnds(want)), "the help page does not read as it should");
    } else {
      sx.assert(sx.eq(solid(got), solid(want)), "a text of the help page is lost, added or out of place");
      const rows = trimEnds(got).split("\n");
      if (rows.length > trimEnds(want).split("\n").length) sx.cover("wrapped");
      // rows are too wide only when one word is
      for (const row of rows) {
        if (row.length <= width) continue;
        const last = row.lastIndexOf(" ") + 1;
        const before = row.slice(0, last).trim();
        sx.assert(before === "" || blocks.some(([t]) => before.length === t.length && sx.is(sx.eq(before, t))), "a row of the help page is wider than asked although it could be broken");
      }
    }
    // in colours: the same page, values without quotes either way here
    const colored = plain(sx, formatDocPage("prog", page, { ...opts, colors: true }));
    sx.assert(sx.eq(solid(colored), solid(want)), "colours change the help page");
    if (width === 0) sx.assert(sx.eq(trimEnds(colored), trimEnds(want)), "colours change the layout of the help page");
  },
};
