import { formatDocPageAsMan } from "@repo/packages/man/src/man.ts";
import { readRoff, plain, sameItems } from "../_lib/roff.ts";

const BODY = "ab.'\\\"-\n (" as any, LINE = "ab.'\\\"- (" as any, NAME = "ab.'\\\"-&(" as any;
const ARG = "ab.'\\\"-\n\r(" as any;
// where the symbolic text goes -> its alphabet and least length
const SLOTS: Record<string, [any, number]> = {
  name: [LINE, 1], version: [ARG, 1], manual: [ARG, 1], date: [ARG, 1],
  brief: [BODY, 1], description: [BODY, 1], footer: [BODY, 1], author: [BODY, 1], bugs: [BODY, 1], examples: [BODY, 1],
  seeAlso: [ARG, 1], section: [ARG, 1], option: [NAME, 1], metavar: [NAME, 1], command: [NAME, 1], argument: [NAME, 1], literal: [BODY, 1],
  entryDescription: [BODY, 1], entryDefault: [BODY, 1], entryChoice: [LINE, 1], loneDefault: [BODY, 1], loneChoice: [LINE, 1],
  usageOption: [NAME, 1], usageArgument: [NAME, 1], usageCommand: [NAME, 1], usageLiteral: [BODY, 1], usageMetavar: [NAME, 1],
  environment: [BODY, 1], files: [BODY, 1], exitStatus: [BODY, 1],
};
// which of the optional parts are there: bit masks
const ALL = 0x1ff;
const text = (s: string) => [{ type: "text", text: s }] as any;
// a concrete text of a message, as items
const oneLine = (sx: any, s: string): string => {
  let o = "";
  for (let k = 0; k < s.length; k++) {
    if (sx.is(s[k] === "\r")) { o += " "; if (k + 1 < s.length && sx.is(s[k + 1] === "\n")) k++; continue; }
    o += sx.is(s[k] === "\n") ? " " : s[k];
  }
  return o;
};
export default {
  name: "page",
  bounds: "pages with every part a man page can have (and, for the parts of the .TH line, every combination of parts); in turn each name, heading, metavariable, literal and message of the page every string of 1-3 (thorough: 5) characters over letters, the characters roff gives a meaning and, where they may occur, newlines and carriage returns",
  assumptions: ["what a reader shows is decided by a reader for the requests and escapes man pages use, compared with groff by hand"],
  covers: ["page", "TH parts"],
  cases(tier: string) {
    const out: any[] = [];
    const deep = tier !== "quick";
    for (const s of Object.keys(SLOTS)) for (const l of deep ? [1, 2, 3, 4, 5] : [1, 2, 3]) {
      if (l < SLOTS[s][1]) continue;
      out.push([s, l, ALL]);
    }
    for (let m = 0; m < 8; m++) for (const s of ["name", "date", "version", "manual"]) out.push([s, deep ? 2 : 1, m], ...(deep ? [[s, 0, m]] : s === "name" ? [] : [[s, 0, m]]));
    return out;
  },
  run(sx: any) {
    const [slot, l, mask] = sx.case;
    if (slot === "name" && l === 0) return;
    const s = sx.str("s", { len: l, chars: SLOTS[slot][0] });
    const v = (k: string, d: string) => k === slot ? s : d;
    const has = (b: number) => (mask & (1 << b)) !== 0;
    sx.cover(mask === ALL ? "page" : "TH parts");
    const name = v("name", "my-prog");
    const opt: any = {
      name, section: 1,
      ...(has(0) && { date: v("date", "May 2020") }), ...(has(1) && { version: v("version", "1.0") }), ...(has(2) && { manual: v("manual", "M n") }),
      ...(has(3) && {
        author: text(v("author", "au")), bugs: text(v("bugs", "bg")), examples: text(v("examples", "ex")),
        brief: text(v("brief", "br")), description: text(v("description", "de")), footer: text(v("footer", "fo")),
        seeAlso: [{ name: v("seeAlso", "sa"), section: 7 }, { name: "sb", section: 2 }],
        environment: { entries: [{ term: { type: "literal", value: "EV" }, description: text(v("environment", "ev")) }] },
        files: { entries: [{ term: { type: "literal", value: "FI" }, description: text(v("files", "fi")) }] },
        exitStatus: { entries: [{ term: { type: "literal", value: "2" }, description: text(v("exitStatus", "xs")) }] },
      }),
    };
    const page: any = { sections: [] };
    if (has(3)) {
      page.usage = [
        { type: "option", names: ["--" + v("usageOption", "uo"), "-u"], metavar: v("usageMetavar", "UM") },
        { type: "command", name: v("usageCommand", "uc") },
        { type: "multiple", min: 0, terms: [{ type: "argument", metavar: v("usageArgument", "UA") }] },
        { type: "exclusive", terms: [[{ type: "literal", value: v("usageLiteral", "ul") }], [{ type: "passthrough" }]] },
      ];
      page.sections = [
        { title: v("section", "My s"), entries: [
          { term: { type: "option", names: ["-o", "/" + v("option", "x")], metavar: v("metavar", "MV") }, description: text(v("entryDescription", "ed")), default: text(v("entryDefault", "df")), choices: [{ type: "value", value: v("entryChoice", "c1") }, { type: "text", text: ", " }, { type: "value", value: "c2" }] },
          { term: { type: "command", name: v("command", "cm") }, default: text(v("loneDefault", "ld")), choices: [{ type: "values", values: [v("loneChoice", "lc")] }] },
        ] },
        { entries: [{ term: { type: "argument", metavar: v("argument", "AR") } }, { term: { type: "argument", metavar: "A2" } }] },
        { title: "empty", entries: [] },
        { entries: [{ term: { type: "literal", value: v("literal", "li") } }] },
      ];
    }
    const doc = formatDocPageAsMan(page, opt);
    const r = readRoff(sx, doc);
    // what the page must show
    const want: any[] = [];
    const th: string[] = [oneLine(sx, name).toUpperCase(), "1"];
    const given = (k: string) => opt[k] !== undefined && opt[k].length > 0;
    const date = given("date") ? oneLine(sx, opt.date) : "", ver = given("version") ? oneLine(sx, name) + " " + oneLine(sx, opt.version) : "", man = given("manual") ? oneLine(sx, opt.manual) : "";
    if (given("date") || given("version") || given("manual")) th.push(date);
    if (given("version") || given("manual")) th.push(ver);
    if (given("manual")) th.push(man);
    want.push({ c: "TH", a: th });
    // body text is joined with the text before it, unless a request came between
    const body = (t: string) => want.push(...plain(sx, t));
    const sh = (...a: string[]) => want.push({ c: "SH", a });
    sh("NAME");
    body(has(3) ? name + " - " + v("brief", "br") : name);
    if (has(3)) {
      sh("SYNOPSIS");
      want.push({ c: "B", a: [name] });
      const lit = v("usageLiteral", "ul");
      want.push({ t: `[--${v("usageOption", "uo")} | -u ${v("usageMetavar", "UM")}] ${v("usageCommand", "uc")} [${v("usageArgument", "UA")} ...] (${lit} | [...])` });
      sh("DESCRIPTION"); body(v("description", "de"));
      sh(oneLine(sx, v("section", "My s").toUpperCase()));
      want.push({ c: "TP", a: [] });
      want.push({ t: `-o, /${v("option", "x")} ${v("metavar", "MV")}` + "\n" });
      const join = (t: string) => {
        // an entry's description follows its term on the next line
        const p = plain(sx, t), first = want[want.length - 1];
        if (p.length > 0 && p[0].c === undefined) { first.t += p[0].t; p.shift(); }
        want.push(...p);
      };
      join(v("entryDescription", "ed") + " [" + v("entryDefault", "df") + "] (choices: " + v("entryChoice", "c1") + ", c2)");
      want.push({ c: "TP", a: [] });
      want.push({ t: v("command", "cm") + "\n" });
      join("[" + v("loneDefault", "ld") + "] (choices: " + v("loneChoice", "lc") + ")");
      sh("ARGUMENTS");
      want.push({ c: "TP", a: [] }, { t: v("argument", "AR") }, { c: "TP", a: [] }, { t: "A2" });
      sh("OPTIONS");
      want.push({ c: "TP", a: [] }, { t: v("literal", "li") });
      for (const [h, t, k, d] of [["ENVIRONMENT", "EV", "environment", "ev"], ["FILES", "FI", "files", "fi"], ["EXIT STATUS", "2", "exitStatus", "xs"]]) {
        sh(...h.split(" "));
        want.push({ c: "TP", a: [] }, { t: t + "\n" });
        join(v(k, d));
      }
      sh("EXAMPLES"); body(v("examples", "ex"));
      sh("BUGS"); body(v("bugs", "bg"));
      sh("SEE", "ALSO");
      want.push({ c: "BR", a: [oneLine(sx, v("seeAlso", "sa")), "(7),"] }, { c: "BR", a: ["sb", "(2)"] });
      sh("AUTHOR"); body(v("author", "au"));
      want.push({ c: "PP", a: [] });
      body(v("footer", "fo"));
    }
    sx.observe("doc", doc);
    sx.assert(r.bad === "", "text of a page is read as markup");
    if (r.bad !== "") return;
    // newlines at the ends of a piece of text are not shown
    const trim = (t: string) => { let a = 0, b = t.length; while (a < b && sx.is(t[a] === "\n")) a++; while (b > a && sx.is(t[b - 1] === "\n")) b--; return t.slice(a, b); };
    const norm = (xs: any[]) => xs.map((x) => x.c ? x : { t: trim(x.t) }).filter((x) => x.c || x.t !== "");
    sx.assert(sameItems(sx, norm(r.items), norm(want)), "a page does not show what it was given");
  },
};
