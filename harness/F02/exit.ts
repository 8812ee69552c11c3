import { object, or } from "@optique/core/constructs";
import { argument, command, constant, option } from "@optique/core/primitives";
import { multiple, optional } from "@optique/core/modifiers";
import { parse } from "@optique/core/parser";
import { integer, string } from "@optique/core/valueparser";
import { run, runAsync, runSync } from "@repo/packages/run/src/run.ts";
import { Exit, proc } from "../_lib/model_process.ts";

const o: any = option;
const GR: Record<string, () => any> = {
  plain: () => object({ v: o("-v"), o: optional(o("-o", string())), n: optional(argument(integer())) }),
  commands: () => or(command("a", object({ k: constant("a"), v: o("-v") })), command("b", object({ k: constant("b"), x: multiple(argument(string())) }))),
};
// how the built-in features are asked for, and the names they then answer to
const SET: Record<string, [any, { h?: string[]; hc?: string[]; v?: string[]; vc?: string[]; c?: string[]; cc?: string[] }]> = {
  option: [{ help: "option", version: "1.2", completion: "option" }, { h: ["--help"], v: ["--version"], c: ["--completion"] }],
  command: [{ help: "command", version: { value: "1.2", command: true }, completion: "command" }, { hc: ["help"], vc: ["version"], cc: ["completion"] }],
  both: [{ help: "both", version: { value: "1.2", command: true, option: true }, completion: "both" }, { h: ["--help"], hc: ["help"], v: ["--version"], vc: ["version"], c: ["--completion"], cc: ["completion"] }],
  objects: [{ help: { option: { names: ["-h", "--hh"] } }, version: { value: "1.2", option: { names: ["-V"] }, command: { names: ["ve"] } }, completion: { command: { names: ["co"] } } }, { h: ["-h", "--hh"], v: ["-V"], vc: ["ve"], cc: ["co"] }],
  none: [{}, {}],
};
const WORDS = ["--help", "help", "--version", "version", "--completion", "completion", "-h", "--hh", "-V", "ve", "co", "-v", "a", "b"];
export default {
  name: "exit",
  bounds: "2 grammars, 5 settings, run(), runSync() and runAsync(), own or process-wide arguments, handlers and exit; command lines of 0-2 (thorough: 3) words, each symbolic (1-2 characters) or a built-in name; every error exit code 0-255",
  assumptions: ["rendered pages and messages are cut out", "an exit handler never returns"],
  covers: ["result", "help", "version", "error", "completion"],
  cases(tier: string) {
    const out: any[] = [];
    const shapes = tier === "quick" ? [[], ["w"], [1], [2], ["w", 1], [1, "w"], [2, "w"]] : [[], ["w"], [1], [2], [3], ["w", "w"], ["w", 1], ["w", 2], [1, "w"], [2, "w"], [1, 2, "w"], ["w", "w", "w"], [2, "w", 1], [2, 1, "w"]];
    for (const g of Object.keys(GR)) for (const s of Object.keys(SET)) for (const sh of shapes) for (const how of [0, 1, 2]) {
      if (tier === "quick" && how > 0 && sh.length > 1) continue;
      for (const own of [true, false]) {
        if (tier === "quick" && !own && (sh.length > 1 || how === 2)) continue;
        out.push([g, s, sh, how, own]);
      }
    }
    return out;
  },
  async run(sx: any) {
    const [gk, sk, shape, how, own] = sx.case;
    const [set, names] = SET[sk];
    const g = GR[gk]();
    const args: string[] = shape.map((k: any, i: number) => k === "w" ? sx.pick("w" + i, WORDS) : sx.str("t" + i, { len: k, chars: [[0x20, 0x7e]] }));
    const code = sx.int("code", 0, 255);
    const withCode = sx.flag("withCode");
    const log: any[] = [];
    proc.log = log;
    proc.argv = own ? ["node", "x"] : ["node", "/bin/prog", ...args];
    const options: any = { ...set, ...(withCode && { errorExitCode: code }) };
    if (own) {
      Object.assign(options, {
        args, programName: "prog",
        stdout: (t: any) => { log.push("out", t); }, stderr: (t: any) => { log.push("err", t); },
        onExit: (c: any) => { log.push("exit", c); throw new Exit(c); },
      });
    }
    const plain: any = parse(g, args);
    let r: any, exit: any;
    try {
      r = how === 0 ? run(g, options) : how === 1 ? runSync(g, options) : await runAsync(g, options);
    } catch (e) {
      if (!(e instanceof Exit)) throw e;
      exit = e;
    }
    sx.observe("log", log.filter((_, i) => i % 2 === 0));
    const outs = log.filter((x, i) => i % 2 === 0 && x === "out").length, errs = log.filter((x, i) => i % 2 === 0 && x === "err").length;
    if (plain.success) {
      sx.cover("result");
      sx.assert(exit === undefined && log.length === 0, "a valid command line ends the process or prints something");
      sx.assert(sx.eq(r, plain.value), "the parsed value is not returned");
      return;
    }
    sx.assert(exit !== undefined, "run() returns although there is no value");
    sx.assert(log.filter((x, i) => i % 2 === 0 && x === "exit").length === 1 && log[log.length - 2] === "exit", "the process is not ended exactly once, after printing");
    const is = (t: string, ns?: string[]) => !!ns?.some((n) => sx.is(sx.eq(t, n)));
    // at the end of a bundle such as -vh a built-in letter stands alone
    const bundled = (t: string) => t.length > 2 && sx.is(t[0] === "-") && [names.h, names.v].some((ns) => ns?.some((n) => n.length === 2 && sx.is(sx.eq(t[t.length - 1], n[1]))));
    const one = args.length === 1 ? args[0] : undefined;
    // what was printed tells help and version apart: the page, or the version number
    const text = log[1];
    const kind = outs === 1 && errs === 0 && (text === "1.2" || text === "1.2\n") ? "version" : outs === 1 && errs === 0 ? "help" : null;
    // a positional argument of the program takes the words first
    if (one !== undefined && !(gk === "plain" && (is(one, names.hc) || is(one, names.vc)))) {
      if (is(one, names.h) || is(one, names.hc)) sx.assert(kind === "help", "help is not shown under its configured name");
      else if (is(one, names.v) || is(one, names.vc)) sx.assert(kind === "version", "the version is not shown under its configured name");
      else if (!bundled(one) && !is(one, names.c) && !is(one, names.cc)) sx.assert(outs === 0 && errs > 0, "an error is not reported on standard error");
    }
    if (args.length === 0) sx.assert(outs === 0 && errs > 0, "an error is not reported on standard error");
    const asked = args.some((t) => bundled(t) || [names.h, names.hc, names.v, names.vc, names.c, names.cc].some((ns) => is(t, ns)));
    if (errs > 0) {
      if (args.some((t) => is(t, names.c) || is(t, names.cc))) { sx.cover("completion"); return; }
      sx.cover("error");
      sx.assert(outs === 0, "an error also prints to standard output");
      sx.assert(sx.eq(exit.code, withCode ? code : 1), "an error does not end with the configured exit code");
    } else {
      sx.assert(sx.eq(exit.code, 0), "a request that succeeds does not end with exit code 0");
      sx.assert(asked, "a built-in page is shown although it was not asked for");
      sx.cover(kind ?? "completion");
    }
    if (!own) sx.assert(log.every((x, i) => i % 2 === 0 || log[i - 1] === "exit" || sx.is(sx.eq(x[x.length - 1], "\n"))), "a line written to a stream does not end with a newline");
  },
};
