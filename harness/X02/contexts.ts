import { defineCommand, runProgram } from "@optique/discover";
import { object } from "@optique/core/constructs";
import { argument, option } from "@optique/core/primitives";
import { optional } from "@optique/core/modifiers";
import { parse } from "@optique/core/parser";
import { string } from "@optique/core/valueparser";
import { Exit, proc } from "../_lib/model_process.ts";

export default {
  name: "contexts",
  bounds: "programs of three commands (one inside another, with or without the parent being runnable); 1-2 contexts of each kind, disposed of in each way; command lines of 1-4 tokens of 1-2 characters, every character unknown; one fault in any pass or disposal",
  assumptions: [],
  covers: ["asked again", "asked once", "parse error", "fault"],
  cases() {
    const out: any[] = [];
    for (const parent of [true, false]) for (const kinds of ["one", "two", "one two", "two two"]) for (const lens of [[1], [1, 1], [1, -2, 1], [1, 1, -2, 1], [1, 1, 1]]) for (const fault of ["none", "p1", "p2", "d", "h"]) {
      if (fault !== "none" && lens.length !== 2) continue;
      out.push([parent, kinds, lens, fault]);
    }
    return out;
  },
  async run(sx: any) {
    const [parent, kinds, lens, fault] = sx.case;
    const args: string[] = lens.map((n: number, i: number) => n > 0 ? sx.str("t" + i, { len: n, chars: "ab1" }) : sx.str("t" + i, { len: -n, chars: "-nq", at: { 0: "-" } }));
    const log: any[] = [];
    const boom = new Error("fault");
    class Ctx {
      id = Symbol("c");
      #mine: number;
      phase: any;
      constructor(public index: number, public kind: string) { this.#mine = index; this.phase = kind === "two" ? "two-pass" : "single-pass"; }
      getAnnotations(request: any) {
        log.push([request?.phase, this.#mine, request?.parsed]);
        if (this.#mine === 0 && (fault === "p1" && request?.phase === "phase1" || fault === "p2" && request?.phase === "phase2")) throw boom;
        return {};
      }
      end() { log.push(["end", this.#mine]); if (this.#mine === 0 && fault === "d") throw boom; }
    }
    const contexts: any[] = kinds.split(" ").map((k: string, i: number) => new Ctx(i, k));
    // a context that can be disposed of in both ways is disposed of asynchronously
    const ways = contexts.map((_, i) => sx.pick("way" + i, ["sync", "async", "both"]));
    contexts.forEach((c, i) => {
      if (ways[i] !== "sync") c[Symbol.asyncDispose] = async function (this: any) { await null; this.end(); };
      if (ways[i] !== "async") c[Symbol.dispose] = function (this: any) { if (ways[i] === "both") log.push(["wrong"]); this.end(); };
    });
    const g = () => object({ n: optional(option("-n", string())), w: optional(argument(string())) });
    const ran: any[] = [];
    const handler = (value: any) => { ran.push(value); if (fault === "h") throw boom; };
    const plan: [string[], any][] = [...(parent ? [[["a"], g()]] as any : []), [["a", "b"], g()], [["b"], g()]];
    const commands = plan.map(([path, parser]) => defineCommand({ path, parser, handler } as any));
    proc.log = [];
    let threw = false, thrown: any;
    try { await runProgram({ commands, args, metadata: { name: "prog" }, contexts, help: false, completion: false } as any); } catch (e) { threw = true; thrown = e; }
    // the deepest command named, and what its own grammar reads
    let at: string[] = [], k = 0;
    while (k < args.length) {
      const next = ["a", "b"].find((n) => plan.some(([p]) => [...at, n].every((s, i) => p[i] === s)) && sx.is(sx.eq(args[k], n)));
      if (next === undefined) break;
      at = [...at, next];
      k++;
    }
    const entry = plan.find(([p]) => p.join(" ") === at.join(" "));
    const want: any = entry ? parse(entry[1], args.slice(k)) : { success: false };
    const p2 = log.filter((e) => e[0] === "phase2"), ends = log.filter((e) => e[0] === "end");
    sx.assert(!log.some((e) => e[0] === "wrong"), "a context that can be disposed of asynchronously is disposed of synchronously");
    sx.assert(ends.length === contexts.length && new Set(ends.map((e) => e[1])).size === contexts.length, "a context is not disposed of exactly once");
    if (fault === "p1") { sx.cover("fault"); sx.assert(threw && ran.length === 0, "a handler runs although a context failed"); return; }
    if (!want.success) {
      sx.cover("parse error");
      sx.assert(ran.length === 0, "a handler runs although the command line is not accepted");
      sx.assert(threw && (fault !== "none" || thrown instanceof Exit), "a refused command line does not end the program");
      return;
    }
    const two = contexts.filter((c) => c.kind === "two");
    sx.cover(two.length > 0 ? "asked again" : "asked once");
    const stop = fault === "p2" && contexts[0].kind === "two";
    sx.assert(p2.length === (stop ? 1 : two.length), "a two-pass context is not asked again exactly once");
    for (const e of p2) sx.assert(sx.eq(e[2], want.value), "a context is shown something other than the value of the command named");
    if (stop || fault === "d") { sx.cover("fault"); sx.assert(threw && ran.length === (0), "a handler runs although a context failed"); return; }
    sx.assert(ran.length === 1 && sx.is(sx.eq(ran[0], want.value)), "the handler of the command named is not run once with its value");
    sx.assert(threw === (fault === "h") && (!threw || thrown === boom), "the failure of a handler is lost");
  },
};
