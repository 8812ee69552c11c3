import { conditional, merge, object, or, seq, tuple } from "@optique/core/constructs";
import { argument, command, constant, flag, option, passThrough } from "@optique/core/primitives";
import { multiple, optional, withDefault } from "@optique/core/modifiers";
import { parse, suggest, suggestAsync } from "@optique/core/parser";
import { runParser, runParserAsync } from "@optique/core/facade";
import { choice, integer, string } from "@optique/core/valueparser";
import { tokens } from "../_lib/ref.ts";

const o: any = option;
const asAsync = (vp: any): any => ({ ...vp, mode: "async", parse: (s: string) => Promise.resolve(vp.parse(s)), async *suggest(p: string) { if (vp.suggest) yield* vp.suggest(p); } });
const GR: Record<string, (w: any) => any> = {
  plain: (w) => object({ v: o("-v", "--all"), o: optional(o("-o", "--out", w(string()))) }),
  choices: (w) => object({ m: o("-m", "--mode", w(choice(["aa", "-b", "--h"]))), x: multiple(argument(w(choice(["a", "h"])))) }),
  own: (w) => object({ h: o("-h", "--help"), V: optional(o("-V", w(string()))), x: multiple(argument(w(integer()))) }),
  commands: (w) => or(command("h", object({ k: constant("h"), v: o("-v") })), command("a", object({ k: constant("a"), m: o("-m", w(choice(["-a", "b"]))), x: optional(argument(w(string()))) })), command("co", object({ k: constant("co"), f: flag("-f") }))),
  nested: (w) => merge(object({ v: o("-v") }), object({ c: command("a", or(command("h", constant(1)), command("b", object({ o: o("-o", w(string())) })))) })),
  branch: (w) => (conditional as any)(o("-r", w(choice(["j", "k"]))), { j: object({ a: o("-a") }), k: object({ b: o("-b", w(choice(["aa", "ab"]))) }) }),
  list: (w) => seq(o("-v"), multiple(argument(w(choice(["a", "b"])))), optional(tuple([o("-z"), command("h", constant(2))]))),
  rest: (w) => object({ v: withDefault(o("-v", w(string())), "x"), r: passThrough({ format: "nextToken" } as any) }),
};
// a first word is a positional argument of these, so completion is asked for as an option
const POS = ["choices", "own", "list"];
const META: Record<string, [string[] | null, string[] | null]> = { both: [["-h", "--help"], ["--ver"]], help: [["--help", "-H"], null], none: [null, null], hidden: [["-h", "--help"], ["--ver"]] };
const key = (s: any): any[] => [s.kind, s.text ?? s.pattern, s.kind === "file" ? s.type : ""];
export default {
  name: "request",
  bounds: "8 grammars (options with values and choices, commands, nested commands, a conditional, a sequence, a pass-through, own options named like the built-in ones), 4 settings of the help and version options, synchronous and asynchronous, asked as a command or an option; command lines of 0-2 (thorough: 3) tokens of 1-2 printable ASCII characters before the word completed, which is one of 9 beginnings",
  assumptions: ["which suggestions the grammar itself offers is decided by S01 and S02"],
  covers: ["own suggestions", "built-in offered", "after --", "value awaited", "own option of the same name"],
  cases(tier: string) {
    const out: any[] = [];
    for (const g of Object.keys(GR)) for (const m of Object.keys(META)) {
      const ls = m === "both" ? (tier === "quick" ? [[], [1], [2], [1, 2]] : [[], [1], [2], [3], [1, 1], [1, 2], [2, 1], [2, 2], [1, 2, 2], [2, 2, 2]]) : [[], [2]];
      for (const l of ls) for (const form of ["cmd", "opt"]) if (form === (POS.includes(g) ? "opt" : "cmd") || form === "opt" && l.length < 2 && g !== "rest") out.push([g, m, l, form, 0]);
      if (m === "both") for (const l of tier === "quick" ? [[2]] : [[2], [1, 2]]) out.push([g, m, l, POS.includes(g) ? "opt" : "cmd", 1]);
    }
    return out;
  },
  async run(sx: any) {
    const [gk, mk, lens, form, a] = sx.case;
    const w = a ? asAsync : (x: any) => x;
    const g = GR[gk](w);
    const pre = tokens(sx, lens);
    const prefix = sx.pick("prefix", ["", "-", "--", "--h", "--help", "-h", "h", "a", "/"]);
    const words = [...pre, prefix];
    const [ho, vo] = META[mk];
    const seen: any[] = [], log: string[] = [];
    const shell = { name: "x", generateScript: () => "script", *encodeSuggestions(ss: any) { for (const s of ss) { seen.push(s); yield "c"; } } };
    const act = (what: string) => (code: number) => { log.push(what + code); return what as any; };
    const hidden = mk === "hidden" ? { hidden: true } : {};
    const options: any = {
      help: ho ? { option: { names: ho, ...hidden }, onShow: act("help") } : undefined,
      version: vo ? { option: { names: vo, ...hidden }, value: "1", onShow: act("version") } : undefined,
      completion: { command: { names: ["cc"] }, option: { names: ["--cc"] }, shells: { x: shell }, onShow: act("completion") },
      stdout: (t: string) => { log.push(t === "c" ? "c" : "out"); }, stderr: () => { log.push("err"); }, onError: act("error"),
    };
    const run = async (args: string[]) => a ? await runParserAsync(g, "prog", args, options) : runParser(g, "prog", args, options);
    const request = form === "cmd" ? ["cc", "x", ...words] : ["--cc", "x", ...words];
    const r = await run(request);
    sx.observe("log", log.length);
    sx.assert(r === "completion" && log[log.length - 1] === "completion0" && log.slice(0, -1).every((x) => x === "c") && log.length === seen.length + 1, "a completion request prints something else than its suggestions, or ends with another code");
    const own: any[] = [];
    if (a) for (const s of await suggestAsync(g, words as any)) own.push(s);
    else for (const s of suggest(g, words as any) as any) own.push(s);
    if (own.length) sx.cover("own suggestions");
    sx.assert(seen.length >= own.length && own.every((s, i) => sx.is(sx.eq(key(seen[i]), key(s)))), "a completion request does not offer what the parser suggests for the same words, in order");
    // beside them the help and version options, each once, where an option may come
    const extra = seen.slice(own.length);
    const builtin = [...(ho ?? []), ...(vo ?? [])];
    const texts = seen.map((s) => s.text);
    for (const n of builtin) sx.assert(texts.filter((t) => sx.is(sx.eq(t, n))).length <= 1, "a built-in option is offered twice");
    const end = pre.some((t: string) => sx.is(sx.eq(t, "--")));
    for (const s of extra) {
      sx.assert(s.kind === "literal" && builtin.includes(s.text) && s.text.startsWith(prefix), "something is offered that neither the parser suggests nor is a built-in option with that beginning");
      sx.assert(mk !== "hidden", "a hidden built-in option is offered");
      sx.cover("built-in offered");
    }
    if (end) sx.cover("after --");
    const odd = pre.some((t: string) => sx.is(sx.eq(t, "cc")));
    for (const n of builtin) {
      if (mk === "hidden" || !n.startsWith(prefix) || prefix === "-" && n.startsWith("--")) continue;
      log.length = 0;
      const what: any = await run([...pre, n]);
      const honoured = log[log.length - 1] === (ho!.includes(n) ? "help0" : "version0");
      const ok: any = a ? undefined : parse(g, pre);
      const offered = extra.some((s) => s.text === n);
      // what a pass-through takes is offered too: it goes to the program behind
      if (own.some((s) => s.text === n) || gk === "own" && n !== "--ver" || gk === "rest") { sx.cover("own option of the same name"); continue; }
      if (offered && (ok?.success || !end && !odd)) sx.assert(honoured, "a built-in option is offered where it would not be honoured");
      // with nothing wrong before it, it is offered wherever it is honoured
      if (!offered && ok?.success && prefix !== "h" && prefix !== "a") sx.assert(!honoured, "a built-in option is not offered where it is honoured");
      if (!offered && !honoured) sx.cover("value awaited");
    }
  },
};
