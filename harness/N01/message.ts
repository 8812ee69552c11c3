import { escapeRoff, escapeQuotedValue, escapeRequestArg, escapeHyphens, formatMessageAsRoff } from "@repo/packages/man/src/roff.ts";
import { readRoff, plain, sameItems } from "../_lib/roff.ts";

const TXT = { chars: "ab.'\\\"-\n &f(" as any };
const NAME = { chars: "ab.'\\\"-&f(" as any };
// kind -> [the term, what it says]
const TERMS: Record<string, (s: string, q: boolean) => [any, string]> = {
  text: (s) => [{ type: "text", text: s }, s],
  value: (s, q) => [{ type: "value", value: s }, q ? `"${s}"` : s],
  values: (s, q) => [{ type: "values", values: [s, "x.y"] }, q ? `"${s}" "x.y"` : `${s} x.y`],
  metavar: (s) => [{ type: "metavar", metavar: s }, s],
  envVar: (s) => [{ type: "envVar", envVar: s }, s],
  optionName: (s) => [{ type: "optionName", optionName: "-" + s }, "-" + s],
  optionNames: (s) => [{ type: "optionNames", optionNames: ["--o", "/" + s] }, "--o, /" + s],
  commandLine: (s) => [{ type: "commandLine", commandLine: s }, s],
  lineBreak: () => [{ type: "lineBreak" }, "\n"],
};
const KINDS = Object.keys(TERMS);
export default {
  name: "message",
  bounds: "messages of 1-3 terms of every kind, with and without quotation marks; the text of one or two of them every string of 0-4 (thorough: 6) characters over letters, the characters roff gives a meaning (. ' \\ \" - & f ( ) space and newline; the four escape functions on the same strings",
  assumptions: ["URL terms are left out (their text is produced by the platform)", "what a reader shows is decided by a reader for the requests and escapes man pages use, compared with groff by hand"],
  covers: ["dot", "quote", "backslash", "paragraph", "plain"],
  cases(tier: string) {
    const out: any[] = [];
    const deep = tier !== "quick";
    for (const k of KINDS) for (const q of [0, 1]) {
      if (q === 0 && k !== "value" && k !== "values") continue;
      for (const l of k === "lineBreak" ? [0] : deep ? [0, 1, 2, 3, 4, 5, 6] : [0, 1, 2, 3, 4]) {
        if (l > 3 && k !== "text" && k !== "value" && !deep) continue;
        if (l === 0 && ["metavar", "envVar", "optionName", "optionNames", "commandLine"].includes(k)) continue;
        out.push([[k], [l], q]);
      }
    }
    for (const k of KINDS) for (const m of KINDS) {
      const l = (x: string, d: number) => x === "lineBreak" ? 0 : d;
      out.push([[k, m], [l(k, 1), l(m, 1)], 1]);
      if (deep || k === "text" || m === "text") out.push([[k, m], [l(k, k === "text" ? 2 : 1), l(m, m === "text" ? 2 : 1)], 0]);
      if (deep) out.push([[k, m, "text"], [l(k, 1), l(m, 1), 2], 0], [["text", k, m], [2, l(k, 1), l(m, 1)], 1], [[k, "lineBreak", m], [l(k, 1), 0, l(m, 2)], 0]);
    }
    for (const f of ["escapeRoff", "escapeQuotedValue", "escapeRequestArg", "escapeHyphens"]) for (const l of deep ? [0, 1, 2, 3, 4, 5, 6] : [0, 1, 2, 3, 4]) out.push([f, l]);
    return out;
  },
  run(sx: any) {
    if (typeof sx.case[0] === "string") {
      const [f, l] = sx.case;
      if (f === "escapeHyphens") {
        const s = sx.str("s", { len: l, chars: "ab- ." });
        sx.cover("plain");
        const r = readRoff(sx, "x" + escapeHyphens(s));
        sx.assert(r.bad === "" && sameItems(sx, r.items, [{ t: "x" + s }]), "hyphens are not shown as they are");
        sx.assert(!sx.is(sx.test(/(^|[^\\])-/, escapeHyphens(s))), "a hyphen is left unescaped");
        return;
      }
      if (f === "escapeRequestArg") {
        const s = sx.str("s", { len: l, chars: "ab.'\\\"-\n\r (" as any });
        const r = readRoff(sx, `.SH "${escapeRequestArg(s)}"`);
        let want = "";
        for (let k = 0; k < l; k++) {
          if (sx.is(s[k] === "\r")) { want += " "; if (k + 1 < l && sx.is(s[k + 1] === "\n")) k++; continue; }
          want += sx.is(s[k] === "\n") ? " " : s[k];
        }
        sx.assert(r.bad === "", "a request's argument does not stay one argument");
        sx.assert(sameItems(sx, r.items, [{ c: "SH", a: [want] }]), "a request's argument is not shown as given");
        return;
      }
      const s = sx.str("s", { len: l, ...TXT });
      if (f === "escapeQuotedValue") {
        const one = sx.str("s1", { len: l, chars: "ab.'\\\"- &f(" as any });
        const r = readRoff(sx, `"${escapeQuotedValue(one)}"`);
        sx.assert(r.bad === "" && sameItems(sx, r.items, [{ t: `"${one}"` }]), "a quoted value is not shown as given");
        return;
      }
      const r = readRoff(sx, escapeRoff(s));
      // no paragraph macro here: blank lines stay
      sx.assert(r.bad === "", "escaped text is read as markup");
      sx.assert(l === 0 ? r.items.length === 0 : sameItems(sx, r.items, [{ t: s }]), "escaped text is not shown as given");
      return;
    }
    const [kinds, lens, quotes] = sx.case;
    const terms: any[] = [];
    let says = "";
    kinds.forEach((k: string, j: number) => {
      const s = sx.str("s" + j, { len: lens[j], ...(["optionName", "optionNames", "metavar", "envVar", "commandLine"].includes(k) ? NAME : TXT) });
      const [t, p] = TERMS[k](s, quotes === 1);
      terms.push(t);
      says += p;
    });
    const out = formatMessageAsRoff(terms, quotes === 1 ? undefined : { quotes: false });
    const r = readRoff(sx, out, { bareHyphen: kinds.includes("envVar") });
    const want = plain(sx, says);
    if (want.some((w) => w.c === "PP")) sx.cover("paragraph"); else sx.cover("plain");
    if (says.length > 0) {
      if (sx.is(says[0] === ".")) sx.cover("dot");
      if (sx.is(says[0] === "'")) sx.cover("quote");
      if (sx.is(says[says.length - 1] === "\\")) sx.cover("backslash");
    }
    sx.observe("out", out);
    sx.assert(r.bad === "", "text of a message is read as markup");
    sx.assert(sameItems(sx, r.items, want), "a message is not shown as written");
  },
};
