import { object, or } from "@optique/core/constructs";
import { argument, command, constant, flag, option } from "@optique/core/primitives";
import { multiple, optional } from "@optique/core/modifiers";
import { parse, parseAsync } from "@optique/core/parser";
import { runParser, runParserAsync } from "@optique/core/facade";
import { integer, string } from "@optique/core/valueparser";
import { lengths, tokens } from "../_lib/ref.ts";

const o: any = option;
const asAsync = (vp: any): any => ({ ...vp, mode: "async", parse: (s: string) => Promise.resolve(vp.parse(s)), suggest: undefined });
const GR: Record<string, (w: any) => any> = {
  plain: (w) => object({ v: o("-v"), o: optional(o("-o", w(string()))) }),
  required: (w) => object({ n: o("-n", w(integer())), x: argument(w(string())) }),
  overlap: (w) => object({ h: o("-h"), V: optional(o("-V", w(string()))), x: multiple(argument(w(integer()))) }),
  commands: (w) => or(command("h", object({ k: constant("h"), v: o("-v") })), command("a", object({ k: constant("a"), x: optional(argument(w(string()))) })), command("co", object({ k: constant("co"), f: flag("-f") }))),
  nested: (w) => object({ v: o("-v"), c: command("a", or(command("h", constant(1)), command("b", object({ o: o("-o", w(string())) })))) }),
  free: (w) => object({ x: multiple(argument(w(string()))), h: o("-h") }),
};
// [help option, help command, version option, version command, completion option, completion command]
const META: Record<string, (string[] | null)[]> = {
  all: [["-h", "-H"], ["h"], ["-V"], ["ve"], ["-C"], ["co"]],
  options: [["-h"], null, ["-V"], null, ["-C"], null],
  commands: [null, ["h"], null, ["ve"], null, ["co"]],
  help: [["-h"], ["h"], null, null, null, null],
  none: [null, null, null, null, null, null],
};
const sub = (opt: string[] | null, cmd: string[] | null, extra: any): any => opt || cmd ? { ...(opt && { option: { names: opt } }), ...(cmd && { command: { names: cmd } }), ...extra } : undefined;
export default {
  name: "meta",
  bounds: "6 grammars (with names overlapping the built-in ones), 5 settings of help, version and completion as options and commands, synchronous and asynchronous; command lines of 0-3 (thorough: 4) tokens of 1-3 printable ASCII characters",
  assumptions: ["rendered pages and messages are cut out: only which page is shown, where and with which exit code is decided"],
  covers: ["result", "help", "version", "completion", "error", "consumed as data", "after --", "requested at the end"],
  cases(tier: string) {
    const out: any[] = [];
    for (const g of Object.keys(GR)) for (const m of Object.keys(META)) {
      const ls = m === "all" ? (tier === "quick" ? [[], [1], [2], [3], [1, 1], [1, 2], [2, 1], [2, 2], [1, 2, 2]] : [...lengths(0), ...lengths(1, 1, 4), ...lengths(2, 1, 3), ...lengths(3, 1, 2), [2, 2, 2, 2], [1, 2, 1, 2]]) : [[2], [1, 2], [2, 2]];
      for (const l of ls) out.push([g, m, l, 0]);
      if (m === "all") out.push([g, m, [1, 2], 1], [g, m, [2, 2], 1]);
    }
    return out;
  },
  async run(sx: any) {
    const [gk, mk, lens, a] = sx.case;
    const args = tokens(sx, lens);
    const [ho, hc, vo, vc, co, cc] = META[mk];
    const log: string[] = [];
    const act = (what: string) => (code: number) => { log.push(what + code); return what as any; };
    const options: any = {
      help: sub(ho, hc, { onShow: act("help") }), version: sub(vo, vc, { value: "1.2.3", onShow: act("version") }), completion: sub(co, cc, { onShow: act("completion") }),
      stdout: (t: string) => { log.push(t === "1.2.3" ? "out:version" : "out"); }, stderr: () => { log.push("err"); }, onError: act("error"),
    };
    const w = a ? asAsync : (x: any) => x;
    const g = GR[gk](w);
    const plain: any = a ? await parseAsync(g, args) : parse(g, args);
    const r: any = a ? await runParserAsync(g, "prog", args, options) : runParser(g, "prog", args, options);
    sx.observe("log", log);
    const last = log[log.length - 1];
    if (plain.success) {
      sx.cover("result");
      if (args.some((t) => [ho, hc, vo, vc, co, cc].some((n) => n?.some((x) => sx.is(sx.eq(t, x)))))) sx.cover("consumed as data");
      sx.assert(log.length === 0, "a command line the program accepts is intercepted or something is printed");
      sx.assert(sx.eq(r, plain.value), "the value returned differs from the parsed value");
      return;
    }
    // exactly one outcome, on the right stream, with the right exit code
    sx.assert(last === "help0" || last === "version0" || last === "completion0" || last === "error1", "no outcome, or a wrong exit code");
    sx.assert(log.filter((x) => !/^(out|err$)/.test(x)).length === 1, "more than one outcome");
    sx.cover(last.slice(0, -1));
    sx.assert(sx.eq(r, last.slice(0, -1)), "the callback's result is not returned");
    if (last === "help0") sx.assert(log.length === 2 && log[0] === "out", "help is not printed exactly once to standard output");
    if (last === "version0") sx.assert(log.length === 2 && log[0] === "out:version", "the version is not printed exactly once to standard output");
    if (last === "error1") sx.assert(!log.some((x) => /^out/.test(x)) && log.includes("err"), "an error is not reported on standard error only");
    if (last === "completion0") sx.assert(!log.includes("err"), "a completion request prints to standard error");
    // only what was asked for
    const end = args.findIndex((t) => sx.is(sx.eq(t, "--")));
    const head = end < 0 ? args : args.slice(0, end);
    // at the end of a bundle such as `-vh` it stands alone once the rest was consumed
    const bundled = (t: string, n: string) => n.length === 2 && t.length > 2 && t[0] === "-" && sx.is(sx.eq(t[t.length - 1], n[1]));
    const has = (names: string[] | null, eq?: boolean) => head.some((t) => names?.some((n) => sx.is(sx.eq(t, n)) || bundled(t, n) || eq && t.length > n.length && sx.is(sx.eq(t.slice(0, n.length + 1), n + "="))));
    const first = (names: string[] | null) => args.length > 0 && !!names?.some((n) => sx.is(sx.eq(args[0], n)));
    const H = has(ho), V = has(vo), C = has(co, true);
    const fh = first(hc), fv = first(vc), fc = first(cc);
    if (end >= 0) sx.cover("after --");
    if (last === "help0") sx.assert(H || fh || fc && args.length > 1 && ho !== null && ho.some((n) => sx.is(sx.eq(args[1], n))), "help is shown although it was not asked for");
    if (last === "version0") sx.assert(V || fv, "the version is shown although it was not asked for");
    if (last === "completion0") sx.assert(C || fc, "completion runs although it was not asked for");
    // a request at the end of an otherwise valid command line, or standing alone, is honoured
    const is = (t: string, names: string[] | null) => !!names?.some((n) => sx.is(sx.eq(t, n)));
    if (args.length > 0 && end < 0) {
      const t = args[args.length - 1], pre = args.slice(0, -1);
      // where the grammar declares -h itself, -h is its own
      const own = gk === "overlap" || gk === "free";
      if (!own && (is(t, ho) || is(t, vo))) {
        const p: any = a ? await parseAsync(g, pre) : parse(g, pre);
        if (p.success || pre.length === 0) {
          sx.cover("requested at the end");
          sx.assert(last === (is(t, ho) ? "help0" : "version0"), "a help or version option at the end of a valid command line is not honoured");
        }
      }
    }
    if (args.length === 1 && /plain|nested/.test(gk)) {
      if (is(args[0], hc)) sx.assert(last === "help0", "the help command is not honoured");
      if (is(args[0], vc)) sx.assert(last === "version0", "the version command is not honoured");
      if (is(args[0], cc)) sx.assert(last === "completion0" || last === "error1", "the completion command is not honoured");
    }
  },
};
