import { defineCommand, runProgram } from "@optique/discover";
import { parse } from "@optique/core/parser";
import { object } from "@optique/core/constructs";
import { option } from "@optique/core/primitives";
import { optional } from "@optique/core/modifiers";
import { string } from "@optique/core/valueparser";
import { Exit, proc } from "../_lib/model_process.ts";

const STEPS = ["pb", "cb", "h", "ca", "pa", "ce", "pe"];
export default {
  name: "hooks",
  bounds: "a program of two commands, one with hooks of its own, in every combination of the six hooks being present or absent; what each beforeEach gives (a resource, an empty context, null, nothing); up to two faults at any of the seven steps, thrown or rejected, immediately or two turns later; command lines of 0-3 tokens of 1-2 characters, every character unknown",
  assumptions: ["contexts given to runProgram() are none: they are the subject of F03"],
  covers: ["runs", "fails", "second fault", "parse error", "shared context", "own context", "no context"],
  cases(tier: string) {
    const out: any[] = [];
    let m = 0;
    for (const present of Array.from({ length: 64 }, (_, i) => i)) for (const late of [false, true]) for (const gives of ["resource", "empty", "null", "nothing"]) {
      m++;
      // quick: every set of hooks once with a resource, and other contexts in turn
      if (tier === "quick" && !(gives === "resource" ? late === (present % 3 === 0) : late !== (present % 3 === 0) && (present >> 1) % 4 === ["", "empty", "null", "nothing"].indexOf(gives))) continue;
      out.push([present, late, gives, m % 3]);
    }
    return out;
  },
  async run(sx: any) {
    const [present, late, gives, li] = sx.case;
    const has: any = {}, NAMES = ["pb", "pa", "pe", "cb", "ca", "ce"];
    NAMES.forEach((n, i) => has[n] = (present >> i & 1) === 1);
    const fault = sx.pick("fault", ["none", ...STEPS]), second = sx.pick("second", ["none", "ce", "pe", "ca"]), rejects = late || sx.flag("rejects");
    const args: string[] = [sx.str("cmd", { len: 1, chars: "abcx" }), ...(li === 0 ? [] : li === 1 ? ["-n", sx.str("val", { len: 2, chars: "-nq1" })] : [sx.str("opt", { len: 2, chars: "-nq" })])];
    const log: any[] = [], errors: any = {};
    let open = 0;
    const step = (name: string, seen: any, result: any) => {
      const rec: any = { name, ...seen };
      log.push(rec);
      rec.overlaps = open > 0;
      const bad = fault === name || second === name;
      if (bad) errors[name] = new Error("fault " + name);
      if (!late) {
        if (!bad) return rejects ? Promise.resolve(result) : result;
        if (rejects) return Promise.reject(errors[name]);
        throw errors[name];
      }
      open++;
      return (async () => {
        await Promise.resolve();
        await Promise.resolve();
        open--;
        if (bad) throw errors[name];
        return result;
      })();
    };
    const context = (who: string) => gives === "resource" ? { resource: who } : gives === "empty" ? {} : gives === "null" ? null : undefined;
    const given: any = { pb: context("program"), cb: context("command") };
    const hooks = (p: string): any => ({
      ...(has[p + "b"] && { beforeEach: (inv: any) => step(p + "b", { inv }, given[p + "b"]) }),
      ...(has[p + "a"] && { afterEach: (ctx: any, result: any) => step(p + "a", { ctx, result }, "ignored") }),
      ...(has[p + "e"] && { onError: (ctx: any, error: any) => step(p + "e", { ctx, error }, "ignored") }),
    });
    const result = { done: 1 };
    const handler = (...given: any[]) => step("h", { given }, result) as any;
    const grammar = object({ n: optional(option("-n", string())) });
    const ownHooks = has.cb || has.ca || has.ce;
    const a: any = defineCommand({ path: ["a"], parser: grammar, handler, ...(ownHooks && { hooks: hooks("c") }) });
    const b: any = defineCommand({ path: ["b"], parser: grammar, handler });
    proc.log = [];
    let threw = false, thrown: any;
    try {
      await runProgram({ commands: [a, b], args, metadata: { name: "prog" }, help: false, completion: false, ...((has.pb || has.pa || has.pe) && { hooks: hooks("p") }) } as any);
    } catch (e) { threw = true; thrown = e; }
    // what had to happen
    const which = sx.is(sx.eq(args[0], "a")) ? a : sx.is(sx.eq(args[0], "b")) ? b : undefined;
    const own: any = parse(grammar, args.slice(1)), value = own.success ? own.value.n : undefined;
    const runs = which !== undefined && own.success;
    if (!runs) {
      sx.cover("parse error");
      sx.assert(log.length === 0, "a hook or handler runs although the command line is not accepted");
      sx.assert(threw && thrown instanceof Exit && thrown.code === 1, "a command line that is not accepted does not end the program with status 1");
      return;
    }
    const mine = which === a;
    const on = (n: string) => n === "h" || has[n] && (mine || n[0] === "p");
    // forward until the first fault
    const forward = ["pb", "cb", "h", "ca", "pa"].filter(on);
    const stop = forward.findIndex((n) => fault === n || second === n);
    const expected = stop < 0 ? forward : forward.slice(0, stop + 1);
    const failed = stop < 0 ? undefined : forward[stop];
    const want = [...expected];
    if (failed !== undefined) {
      if (failed !== "pb" && failed !== "pa" && on("ce")) want.push("ce");
      if (on("pe")) want.push("pe");
    }
    sx.cover(failed ? "fails" : "runs");
    if (failed && errors.ce || errors.pe) sx.cover("second fault");
    sx.assert(log.map((e) => e.name).join(" ") === want.join(" "), "hooks and handler do not run in the documented order, each once");
    sx.assert(log.every((e) => !e.overlaps), "a step starts before the one before it is over");
    sx.assert(threw === (failed !== undefined) && (!failed || thrown === errors[failed]), "the failure that ends a program is not the first one");
    const program = has.pb && failed !== "pb" ? given.pb ?? {} : {};
    const command = on("cb") ? (failed === "cb" ? {} : given.cb ?? {}) : program;
    const same = (x: any, y: any) => x === y || y !== null && typeof y === "object" && Object.keys(y).length === 0 && x !== null && typeof x === "object" && Object.keys(x).length === 0;
    for (const e of log) {
      if (e.name === "pb" || e.name === "cb") {
        sx.assert(e.inv.command === which && e.inv.path.join(" ") === (mine ? "a" : "b") && sx.is(sx.eq(e.inv.value.n, value)), "beforeEach is told of another invocation");
      } else if (e.name === "h") {
        sx.assert(sx.is(sx.eq(e.given[0].n, value)), "a handler is given another value than the one parsed");
        if (on("cb") || has.pb) { sx.cover(on("cb") ? "own context" : "shared context"); sx.assert(e.given.length === 2 && same(e.given[1], on("cb") ? command : program), "a handler is given another context than its beforeEach made"); }
        else { sx.cover("no context"); sx.assert(e.given.length === 1, "a handler without hooks is given a context"); }
      } else {
        sx.assert(same(e.ctx, e.name[0] === "p" ? program : command), "a hook is given another scope's context");
        if (e.name[1] === "a") sx.assert(e.result === result, "afterEach is not given the handler's result");
        else sx.assert(e.error === errors[failed!], "onError is given another error than the one that happened");
      }
    }
  },
};
