import { mix } from "../_lib/mix.ts";
import { group, merge, object, or } from "@optique/core/constructs";
import { withDefault } from "@optique/core/modifiers";
import { command, option } from "@optique/core/primitives";
import { defineProgram } from "@optique/core/program";
import { choice } from "@optique/core/valueparser";
import { defineCommand, runProgram } from "@optique/discover";
import { run, runAsync, runSync } from "@repo/packages/run/src/run.ts";
import { Exit, proc } from "../_lib/model_process.ts";
import { plain } from "../_lib/lines.ts";

const FIELDS = ["brief", "description", "examples", "author", "bugs", "footer"];
const msg = (s: string | undefined): any => s === undefined ? undefined : [{ type: "text", text: s }];
const LONG = "one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen";
export default {
  name: "run",
  bounds: "run(), runSync(), runAsync() with a parser or a program, and runProgram(), with and without contexts; each of six texts (with one symbolic letter) given by the program, by the options, by both or by neither; name, width, colours, defaults, choices, usage and order of sections given or not; the program's page, a command's page, and the page above an error",
  assumptions: [],
  covers: ["program page", "command page", "error with page", "text of the options", "text of the program", "no text", "wrapped"],
  cases(tier: string) {
    const out: any[] = [];
    let m = 0;
    for (const api of ["run", "sync", "async", "program"]) for (const form of ["parser", "program"]) for (const ctx of [false, true]) for (const ask of ["help", "a help", "error"]) for (const more of [0, 1, 2, 3]) for (let k = 0; k < FIELDS.length; k++) {
      if (api === "program" && form === "parser") continue;
      m++;
      if (tier === "quick" && mix(m) % 5 !== 0) continue;
      out.push([api, form, ctx, ask, more, k]);
    }
    return out;
  },
  async run(sx: any) {
    const [api, form, ctx, ask, more, k] = sx.case;
    const viaMeta = form === "program" && sx.flag("meta"), viaOpt = sx.flag("opt"), l = sx.str("l", { len: 1, chars: [["a", "z"]] });
    const texts: any = {}, meta: any = { name: "named" }, options: any = {};
    FIELDS.forEach((f, i) => {
      if (form === "program" && (i === k ? viaMeta : true)) meta[f] = msg(texts[f] = "Meta" + i + (i === k ? l : ""));
      if (i === k ? viaOpt : more === 3) options[f] = msg(texts[f] = "Opts" + i + (i === k ? l : ""));
    });
    sx.cover(viaOpt ? "text of the options" : viaMeta ? "text of the program" : "no text");
    const own: any = { brief: more === 1 ? "OwnBrief" : undefined, description: "OwnDesc", footer: more === 2 ? "OwnFoot" : undefined };
    const ownMeta: any = { brief: msg(own.brief), description: msg(own.description), footer: msg(own.footer) };
    const a = merge(group("First", object({ n: withDefault(option("-n", choice(["c1", "c2"]), { description: msg(LONG) }), "c2") })), group("Second", object({ z: option("-z") })));
    const b = object({ q: option("-q") });
    const name = sx.flag("name") ? "given" : undefined, width = [undefined, 60, 72, undefined][more], colors = [undefined, true, false, undefined][more];
    const display: any = more === 1 ? { showDefault: true, showChoices: true, showUsage: false, sectionOrder: (x: any, y: any) => (x.title ?? "") < (y.title ?? "") ? 1 : -1 } : more === 2 ? { showDefault: { prefix: " <<", suffix: ">>" }, showUsage: true } : {};
    const log: any[] = [];
    proc.log = log;
    proc.argv = ["node", "/bin/base"];
    // the terminal says otherwise: what is set counts
    Object.assign(proc.stdout, { isTTY: more === 2, columns: more === 2 ? 50 : undefined });
    Object.assign(options, display, {
      ...name && { programName: name }, ...width && { maxWidth: width }, ...colors !== undefined && { colors }, aboveError: "help", help: "option", completion: false,
      args: ask === "help" ? ["--help"] : ask === "a help" ? ["a", "--help"] : ["zz"],
      stdout: (t: any) => { log.push("out", t); }, stderr: (t: any) => { log.push("err", t); }, onExit: (c: any) => { throw new Exit(c); },
      ...ctx && { contexts: [{ id: Symbol("c"), phase: "single-pass", getAnnotations: () => ({}) }] },
    });
    if (api !== "program") delete options.completion;
    let exit: any;
    try {
      const parser: any = or(command("a", a, ownMeta), command("b", b));
      const p: any = form === "program" ? defineProgram({ parser, metadata: meta }) : parser;
      if (api === "program") await runProgram({ commands: [defineCommand({ path: ["a"], parser: a, metadata: ownMeta, handler() {} } as any), defineCommand({ path: ["b"], parser: b, handler() {} } as any)], metadata: meta, ...options });
      else { const r: any = api === "run" ? run(p, options) : api === "sync" ? runSync(p, options) : runAsync(p, options); if (api === "async" || ctx) await r; }
    } catch (e) { if (!(e instanceof Exit)) throw e; exit = e; }
    sx.cover(ask === "help" ? "program page" : ask === "a help" ? "command page" : "error with page");
    sx.assert(exit !== undefined && log[0] === (ask === "error" ? "err" : "out"), "a page is not shown where it was asked for");
    const raw: string = log[1] ?? "", page = plain(sx, raw);
    const has = (t: string) => { for (let i = 0; i + t.length <= page.length; i++) if (sx.is(sx.eq(page.slice(i, i + t.length), t))) return true; return false; };
    sx.observe("page", page);
    // every text given, and no other
    const top = ask !== "a help";
    FIELDS.forEach((f, i) => {
      const want = top ? texts[f] : f === "footer" ? own.footer ?? texts[f] : own[f];
      for (const t of new Set([want, texts[f], "Meta" + i, "Opts" + i])) {
        if (t === undefined) continue;
        const in_ = want !== undefined && sx.is(sx.eq(want.slice(0, t.length), t));
        if (top && own[f]?.startsWith(t)) continue; // the command list may have a command's own text
        sx.assert(has(t) === in_, in_ ? "a page lacks the text given for it" : "a page has a text not given for it");
      }
      if (!top && own[f]) sx.assert(has(own[f]), "a command's page lacks the command's text");
    });
    for (const [f, label] of [["examples", "Examples:"], ["author", "Author:"], ["bugs", "Bugs:"]]) sx.assert(has(label) === (top && texts[f] !== undefined), "a page has a label without its text, or a text without its label");
    const called = name ?? (form === "program" ? "named" : "base");
    sx.assert(has("Usage: " + called) === (display.showUsage !== false), display.showUsage === false ? "a page shows its usage although it is switched off" : "a page's usage does not name the program");
    sx.assert((raw.length !== page.length) === (colors === true), "colours are not as set");
    const lines = page.split("\n");
    for (const x of lines) if (width !== undefined) sx.assert(x.length <= width, "a page is wider than asked for");
    if (!top) {
      if (width === undefined) sx.assert(lines.some((x: string) => sx.is(x.includes(LONG))), "a page is broken into lines although no width was set");
      else { sx.cover("wrapped"); sx.assert(!lines.some((x: string) => sx.is(x.includes(LONG))) && lines.some((x: string) => x.length > width - 14), "a page does not use the width set"); }
      const flat = lines.map((x: string) => x.trim()).join(" ");
      sx.assert(sx.is(flat.includes("[")) && sx.is(flat.includes("c2]")) === (more === 1) || more !== 1 && !sx.is(flat.includes("c2]")), "a default is shown in another way than set");
      sx.assert(sx.is(flat.includes("<<")) === (more === 2), "a default is shown in another way than set");
      sx.assert(sx.is(flat.includes("choices:")) === (more === 1), "choices are shown in another way than set");
      const f = lines.findIndex((x: string) => sx.is(x.includes("First:"))), s = lines.findIndex((x: string) => sx.is(x.includes("Second:")));
      sx.assert(f >= 0 && s >= 0 && (f < s) === (more !== 1), "sections are not in the order set");
    }
  },
};
