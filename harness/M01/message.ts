import { mix } from "../_lib/mix.ts";
import { formatMessage, lineBreak, text, value, values, optionName, optionNames, metavar, envVar, commandLine, url } from "@optique/core/message";
import { items, plain } from "../_lib/lines.ts";

// a term: kind and its texts; "@" is a free character
const T: Record<string, [string, string[], any]> = {
  t: ["text", ["@@@"], "ab \n"], T: ["text", ["@@@@"], "a \n"], w: ["text", ["@ab@"], " ,\n"], b: ["br", [], ""],
  v: ["value", ["@@"], "a \"\\"], V: ["values", ["@", "b@", "@c"], "a\" "], o: ["option", ["--@@"], "ab-"], O: ["options", ["-@", "--@@"], "ab"], m: ["metavar", ["@@"], "AB|"],
  e: ["env", ["@@"], "AB_"], c: ["command", ["@ @"], "ab "], u: ["url", ["http://@@.c/"], "ab"], p: ["text", ["a\n@\nb@"], "\n x"], q: ["text", ["a @b\n\nc@ d"], "\n x"],
};
const SETS = ["t", "T", "p", "v", "V", "o", "O", "m", "e", "c", "u", "tt", "tb", "bt", "bp", "q", "qv", "vq", "tv", "vt", "wv", "wo", "wO", "wm", "we", "wc", "wV", "Vw", "wu", "uw", "tbt", "vbt", "wvw", "wow", "bbt", "ttt", "vbp", "ovm"];
export default {
  name: "message",
  bounds: "messages of 1-3 terms of all 10 kinds, in 38 sequences, with 0-9 symbolic characters (letters, blanks, line breaks, quotes, backslashes); with and without quotes and colours, also with a text after each reset; widths 1-12 (thorough: 1-20) and none",
  assumptions: ["texts are ASCII; display widths of other characters are not decided"],
  covers: ["wrapped", "too wide", "paragraph", "line break", "colours", "plain"],
  cases(tier: string) {
    const out: any[] = [];
    let k = 0;
    for (const s of SETS) for (const quotes of [1, 0]) {
      out.push([s, quotes, 0]);
      for (const w of tier === "quick" ? [1, 2, 3, 4, 5, 6, 8, 12] : Array.from({ length: 20 }, (_, i) => i + 1)) { k++; if (tier === "quick" && s.length > 1 && (mix(k) % 4 !== 0 || s.includes("tt"))) continue; out.push([s, quotes, w]); }
    }
    return out;
  },
  run(sx: any) {
    const [set, quotes, width] = sx.case;
    const q = (x: string) => quotes ? "`" + x + "`" : x;
    const str = (x: string) => quotes ? JSON.stringify(x) : x;
    const terms: any[] = [];
    const want: string[] = []; // pieces of the unwrapped text
    const loose = new Set<number>(); // the pieces that may be broken at blanks
    let afterBreak = false;
    [...set].forEach((k, n) => {
      const [kind, tmpls, cs0] = T[k];
      const cs = kind === "text" || quotes ? cs0 : cs0.replace(" ", ""); // an unquoted blank value is no word
      const ts = tmpls.map((t0, j) => {
        const t = kind === "text" && set.length > 1 && t0.startsWith("@@@") ? "@@" : t0;
        const free = [...t].filter((c) => c === "@").length;
        const s = free ? sx.str("s" + n + "_" + j, { len: free, chars: cs }) : "";
        let r = "", i = 0;
        for (const c of t) r += c === "@" ? s[i++] : c;
        return r;
      });
      const was = afterBreak;
      afterBreak = kind === "br";
      const put = (t: any, ...ps: string[]) => { terms.push(t); for (const p of ps) want.push(p); };
      if (kind === "br") put(lineBreak(), "\n");
      else if (kind === "value") put(value(ts[0]), str(ts[0]));
      else if (kind === "values") put(values(ts), ...ts.flatMap((t, i) => i ? [" ", str(t)] : [str(t)]));
      else if (kind === "option") put(optionName(ts[0]), q(ts[0]));
      else if (kind === "options") put(optionNames(ts), q(ts[0]), "/", q(ts[1]));
      else if (kind === "metavar") put(metavar(ts[0] as any), q(ts[0]));
      else if (kind === "env") put(envVar(ts[0]), q(ts[0]));
      else if (kind === "command") put(commandLine(ts[0]), q(ts[0]));
      else if (kind === "url") { const u = "http://ab.c/"; terms.push(url(u)); want.push(quotes ? "<" + u + ">" : u); }
      else {
        terms.push(text(ts[0]));
        let t = ts[0];
        if (was && t.length > 0 && sx.is(sx.eq(t[0], "\n")) && !(t.length > 1 && sx.is(sx.eq(t[1], "\n")))) t = t.slice(1);
        let out = "";
        for (let i = 0; i < t.length; i++) {
          if (!sx.is(sx.eq(t[i], "\n"))) { out += t[i]; continue; }
          let j = i;
          while (j + 1 < t.length && sx.is(sx.eq(t[j + 1], "\n"))) j++;
          out += j > i ? "\n\n" : " ";
          if (j > i) sx.cover("paragraph");
          i = j;
        }
        loose.add(want.length);
        want.push(out);
      }
    });
    const opts = (colors: any) => ({ quotes: quotes === 1, colors, ...(width > 0 && { maxWidth: width }) });
    const got = formatMessage(terms, opts(false));
    const colored = formatMessage(terms, opts(true));
    const dim = formatMessage(terms, opts({ resetSuffix: "\x1b[2m" }));
    sx.assert(sx.eq(plain(sx, colored), got), "colours change the text");
    sx.assert(sx.eq(plain(sx, dim), got), "colours with a text after each reset change the text");
    sx.cover(colored.includes("\x1b") ? "colours" : "plain");
    if (colored.includes("\x1b") && !set.includes("u")) {
      // every coloured part ends with a reset, followed by the text asked for
      const last = colored.lastIndexOf("\x1b[");
      sx.assert(colored.startsWith("\x1b[0m", last), "colours are left on");
      sx.assert(sx.eq(dim, colored.split("\x1b[0m").join("\x1b[0m\x1b[2m")), "the text after a reset is missing");
    }
    const a = items(sx, want.join("")), b = items(sx, got);
    if (set.includes("b")) sx.cover("line break");
    sx.assert(a.list.length === b.list.length && sx.and(...a.list.map((x, i) => sx.eq(x.c, b.list[i].c))), "a character of the message is lost, added or changed");
    // where a line may be broken: at blanks, and between pieces
    const ends = new Set<number>(), inside = new Set<number>();
    let n = 0;
    want.forEach((p, w) => { const m = items(sx, p).list.length; if (m) ends.add(n); for (let i = n + 1; i < n + m; i++) if (!loose.has(w)) inside.add(i); n += m; });
    let wrapped = false;
    for (let i = 0; i < a.list.length; i++) {
      const x = a.list[i].gap, y = b.list[i].gap;
      if (x === y) continue;
      const ok = width > 0 && y === "1" && !inside.has(i) && (x === " " || x === "" && ends.has(i));
      if (ok) { wrapped = true; continue; }
      if (i === 0 && x !== "1" && x !== "2" && y !== "1" && y !== "2") continue; // leading blanks
      sx.fail(y === "1" || y === "2" ? "a line is broken where it may not be" : "a line break or blank is lost");
    }
    if (wrapped) sx.cover("wrapped");
    if (width > 0) {
      // a line is too wide only when it is one unbreakable part
      const wordAt: number[] = []; // item index -> number of its unbreakable part
      let part = 0, at = 0, wi = 0;
      for (const p of want) { const free = loose.has(wi++); items(sx, p).list.forEach((x, i) => { if (i === 0 || free && x.gap !== "") part++; wordAt[at++] = part; }); }
      let col = 0, first = 0, k = 0, spaces = 0;
      for (let i = 0; i <= got.length; i++) {
        if (i === got.length || sx.is(sx.eq(got[i], "\n"))) {
          if (k > first && col > width) {
            sx.cover("too wide");
            sx.assert(wordAt[first] === wordAt[k - 1], "a line is wider than asked although it could be broken");
          }
          first = k; col = 0; spaces = 0;
        } else if (sx.is(sx.eq(got[i], " "))) spaces++;
        else { col += spaces + 1; spaces = 0; k++; }
      }
    }
  },
};
