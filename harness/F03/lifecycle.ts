import { mix } from "../_lib/mix.ts";
import { getAnnotations } from "@optique/core/annotations";
import { object } from "@optique/core/constructs";
import { option } from "@optique/core/primitives";
import { optional } from "@optique/core/modifiers";
import { parse } from "@optique/core/parser";
import { runWith, runWithAsync, runWithSync } from "@optique/core/facade";
import { string } from "@optique/core/valueparser";

const KEYS = [Symbol.for("k0"), Symbol.for("k1")];
const CH = "ab-sh";
// what a context does: which keys it gives in each phase (bit masks)
type Kind = { two: boolean; one: number; second: number };
const KINDS: Kind[] = [
  { two: false, one: 1, second: 0 }, { two: false, one: 3, second: 0 }, { two: false, one: 0, second: 0 },
  { two: true, one: 0, second: 1 }, { two: true, one: 3, second: 2 }, { two: true, one: 1, second: 0 }, { two: true, one: 1, second: 3 },
];
export default {
  name: "lifecycle",
  bounds: "1-3 contexts of 7 kinds (single-pass or two-pass, giving each of two keys or not in each phase); command lines of 0-2 tokens of 2-6 characters; one fault at any of: either phase of any context (thrown or rejected), either way of disposal of any context (two of them at once), the error handler, a completion; annotations given at once or as promises; disposal by dispose, asyncDispose, both or none; runWith and runWithSync with synchronous parsers, runWithAsync with ones whose completion takes two more turns",
  assumptions: ["contexts are well-formed: distinct ids, a declared phase", "parsers that read annotations have an object as their state"],
  covers: ["value", "error", "help", "fault", "disposal fault", "both faults", "second pass", "override"],
  cases(tier: string) {
    const out: any[] = [];
    const n = KINDS.length, sets: number[][] = [];
    for (let a = 0; a < n; a++) { sets.push([a]); for (let b = 0; b < n; b++) { sets.push([a, b]); for (let c = 0; c < n; c++) if ((a * 49 + b * 7 + c) % (tier === "quick" ? 23 : 3) === 0) sets.push([a, b, c]); } }
    let m = 0;
    for (const s of sets) for (const lens of [[], [2, 1], [6], [2]]) for (const mode of ["sync", "with", "async"]) {
      m++;
      if (tier === "quick" && s.length > 1 && mix(m) % 3 !== 0) continue;
      out.push([s, lens, mode, "none"]);
      for (let f = 0; f < s.length; f++) for (const w of ["p1", "p2", "d"]) { if (w === "p2" && !KINDS[s[f]].two) continue; if (tier === "quick" && s.length > 1 && mix(m + f + (w === "d" ? 5 : w === "p2" ? 9 : 0)) % 4 !== 0) continue; out.push([s, lens, mode, w + f]); }
      if (s.length === 1 || mix(m + 3) % 5 === 0) out.push([s, lens, mode, "onError"], [s, lens, mode, "complete"]);
    }
    return out;
  },
  async run(sx: any) {
    const [set, lens, mode, fault] = sx.case;
    const args: string[] = lens.map((l: number, k: number) => sx.str("t" + k, { len: l, chars: l === 6 ? "-ehlp" : CH }));
    if (lens.length === 2) sx.assume(args[0][0] === "-");
    const log: [string, number, any?][] = [];
    const boom: Record<string, Error> = {};
    const bad = (w: string) => boom[w] ??= new Error("fault " + w);
    const promised = sx.flag("promised");
    const second = fault !== "none" && fault !== "d0" && sx.flag("alsoDispose");
    const how: string[] = [];
    const texts: any[] = [];
    const contexts = set.map((ki: number, i: number) => {
      const k = KINDS[ki];
      const d = fault === "d" + i || fault === "p1" + i || fault === "none" && i === 0 && lens.length === 0 ? sx.pick("disposal" + i, ["dispose", "async", "both", "none"]) : ["dispose", "async", "both"][(ki + i) % 3];
      how.push(d);
      const vals: any = { phase1: [], phase2: [] };
      for (let b = 0; b < 2; b++) {
        vals.phase1.push(k.one & 1 << b ? sx.str(`a${i}${b}`, { len: (ki + i + set.length) % 3 === 0 ? 0 : 1, chars: "xy" }) : null);
        vals.phase2.push(k.second & 1 << b ? sx.str(`b${i}${b}`, { len: (ki + i) % 3 === 0 ? 0 : 1, chars: "xy" }) : null);
      }
      texts.push(vals);
      const c: any = {
        id: Symbol("c" + i), phase: k.two ? "two-pass" : "single-pass",
        getAnnotations(request: any) {
          const ph = request?.phase;
          log.push([ph === "phase1" ? "p1" : ph === "phase2" ? "p2" : "?", i, request?.parsed]);
          const w = (ph === "phase1" ? "p1" : "p2") + i;
          if (fault === w && !promised) throw bad(w);
          const r: any = {};
          for (let b = 0; b < 2; b++) if (vals[ph]?.[b] != null) r[KEYS[b]] = vals[ph][b];
          if (!promised) return r;
          return fault === w ? Promise.reject(bad(w)) : Promise.resolve(r);
        },
      };
      const fails = fault === "d" + i || second && i === 0;
      const end = (n: string) => () => { log.push([n, i]); if (fails) throw bad("d" + i); };
      if (d === "dispose" || d === "both") c[Symbol.dispose] = end("dispose");
      if (d === "async" || d === "both") c[Symbol.asyncDispose] = mode === "sync" ? end("asyncDispose") : () => { log.push(["asyncDispose", i]); return fails ? Promise.reject(bad("d" + i)) : Promise.resolve(); };
      return c;
    });
    const reads = (b: number): any => ({
      $valueType: [], $stateType: [], mode: "sync", priority: 0, usage: [], leadingNames: new Set(), acceptingAnyToken: false, initialState: {},
      parse: (c: any) => ({ success: true, next: c, consumed: [] }),
      ...(mode === "async" && {
        mode: "async", parse: (c: any) => Promise.resolve({ success: true, next: c, consumed: [] }), async *suggest() {},
        complete: async (state: any) => { await Promise.resolve(); await Promise.resolve(); log.push(["complete", b]); if (fault === "complete") throw bad("complete"); return { success: true, value: getAnnotations(state)?.[KEYS[b]] }; },
      }),
      ...(mode !== "async" && { complete: (state: any) => { log.push(["complete", b]); if (fault === "complete") throw bad("complete"); return { success: true, value: getAnnotations(state)?.[KEYS[b]] }; } }),
      ...(mode !== "async" && { suggest: () => [] }), getDocFragments: () => ({ fragments: [] }),
    });
    const g = object({ s: optional(option("-s", string())), a: reads(0), b: reads(1) });
    const outs: string[] = [], exits: number[] = [];
    const options: any = {
      args, help: { option: true, onShow: () => { exits.push(0); return "help"; } },
      stdout: () => outs.push("out"), stderr: () => outs.push("err"),
      onError: (c: number) => { exits.push(c); if (fault === "onError") throw bad("onError"); return "error"; },
    };
    let value: any, thrown: any, threw = false;
    try { value = mode === "sync" ? runWithSync(g, "prog", contexts, options) : await (mode === "with" ? runWith : runWithAsync)(g, "prog", contexts, options); }
    catch (e) { threw = true; thrown = e; }
    // --- what had to happen
    const n = set.length;
    const plain: any = parse(object({ s: optional(option("-s", string())) }), args);
    const isHelp = !plain.success && args.some((a) => a.length === 6 && sx.is(sx.eq(a, "--help")));
    const firstBad = (w: string) => { for (let i = 0; i < n; i++) if (fault === w + i) return i; return -1; };
    const anyTwo = set.some((k: number) => KINDS[k].two);
    const p1 = log.filter((e) => e[0] === "p1"), p2 = log.filter((e) => e[0] === "p2");
    sx.assert(log.every((e) => e[0] !== "?"), "a context is asked for annotations without a phase");
    const refuseP1 = mode === "sync" && promised;
    const stop1 = refuseP1 ? 0 : firstBad("p1");
    sx.assert(p1.length === (stop1 < 0 ? n : stop1 + 1) && p1.every((e, i) => e[1] === i), "the first pass does not ask each context once, in order");
    sx.assert(p2.every((e) => KINDS[set[e[1]]].two), "a single-pass context is asked twice");
    sx.assert(p2.every((e, i) => i === 0 || p2[i - 1][1] < e[1]), "the second pass asks a context twice or out of order");
    let primary: any = stop1 >= 0 ? (refuseP1 ? "TypeError" : bad("p1" + stop1)) : undefined;
    const completes = log.some((e) => e[0] === "complete");
    if (primary === undefined && fault === "complete" && completes) primary = bad("complete");
    if (primary !== undefined || isHelp) sx.assert(p2.length === 0 || fault === "complete", "a second pass is made although the run is over");
    if (primary === undefined && plain.success) {
      const two = set.map((k: number, i: number) => i).filter((i: number) => KINDS[set[i]].two);
      const stop2 = firstBad("p2");
      const want = stop2 < 0 ? two : two.slice(0, two.indexOf(stop2) + 1);
      sx.assert(p2.length === want.length && want.every((i: number, j: number) => p2[j][1] === i), "the second pass does not ask each two-pass context once");
      for (const e of p2) sx.assert(sx.eq(e[2]?.s, plain.value.s), "a context is not given what was parsed");
      if (want.length > 0) sx.cover("second pass");
      if (stop2 >= 0) primary = bad("p2" + stop2);
    }
    if (primary === undefined && !plain.success && !isHelp) {
      if (p2.length > 0 && firstBad("p2") >= 0) primary = bad("p2" + firstBad("p2"));
      else if (fault === "onError") primary = bad("onError");
    }
    // disposal: each context once, after everything else, whatever happened
    const ends = log.filter((e) => /ispose$/.test(e[0]));
    for (let i = 0; i < n; i++) {
      const mine = ends.filter((e) => e[1] === i);
      sx.assert(mine.length === (how[i] === "none" ? 0 : 1), "a context is not disposed of exactly once");
      const first = mode === "sync" ? "dispose" : "asyncDispose";
      if (mine.length === 1) sx.assert(mine[0][0] === (how[i] === "both" ? first : how[i] === "async" ? "asyncDispose" : "dispose"), "a context is disposed of in the wrong way");
    }
    const from = log.findIndex((e) => /ispose$/.test(e[0]));
    if (from >= 0) sx.assert(log.slice(from).every((e) => /ispose$/.test(e[0])), "a context is used after disposal began");
    const dbad: any[] = [];
    for (let i = 0; i < n; i++) if (how[i] !== "none" && (fault === "d" + i || second && i === 0)) dbad.push(bad("d" + i));
    const isPrimary = (e: any) => primary === "TypeError" ? e instanceof TypeError : e === primary;
    const isDispose = (e: any) => dbad.length === 1 ? e === dbad[0] : e instanceof AggregateError && e.errors.length === dbad.length && dbad.every((d) => e.errors.includes(d));
    if (primary !== undefined && dbad.length > 0) {
      sx.cover("both faults");
      sx.assert(threw && thrown?.error !== undefined && isDispose(thrown.error) && isPrimary(thrown.suppressed), "of two faults one is lost");
      return;
    }
    if (primary !== undefined) { sx.cover("fault"); sx.assert(threw && isPrimary(thrown), "a fault is lost or replaced"); return; }
    if (dbad.length > 0) { sx.cover("disposal fault"); sx.assert(threw && isDispose(thrown), "a disposal fault is lost or replaced"); return; }
    sx.assert(!threw, "the run fails although nothing went wrong");
    if (threw) return;
    if (isHelp) { sx.cover("help"); sx.assert(value === "help" && exits.length === 1 && exits[0] === 0 && !outs.includes("err"), "help is not shown"); return; }
    if (!plain.success) { sx.cover("error"); sx.assert(value === "error" && exits.length === 1 && exits[0] === 1, "an error is not reported once"); return; }
    sx.cover("value");
    sx.assert(exits.length === 0 && outs.length === 0, "something is printed although the command line is valid");
    sx.assert(sx.eq(value.s, plain.value.s), "an option's value is lost");
    for (let b = 0; b < 2; b++) {
      let want: any;
      for (let i = n - 1; i >= 0; i--) {
        const k = KINDS[set[i]], v = texts[i][k.two && anyTwo ? "phase2" : "phase1"][b];
        if (v != null) { if (want !== undefined) sx.cover("override"); want = v; }
      }
      const got = b === 0 ? value.a : value.b;
      sx.assert((got === undefined) === (want === undefined), want === undefined ? "an annotation no context gives in the end is seen" : "a context's annotation is not seen");
      if (got !== undefined && want !== undefined) sx.assert(sx.eq(got, want), "an earlier context does not win over a later one");
    }
  },
};
