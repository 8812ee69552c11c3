import { parse } from "@optique/core/parser";
import { longestMatch, merge, object, or, tuple } from "@optique/core/constructs";
import { argument, command, constant, flag, negatableFlag, option } from "@optique/core/primitives";
import { deferredValue, map, multiple, nonEmpty, optional, withDefault, WithDefaultError } from "@optique/core/modifiers";
import { message } from "@optique/core/message";
import { integer, string } from "@optique/core/valueparser";
import { lengths, noOddBundles, tokens } from "../_lib/ref.ts";

const PARSERS: Record<string, () => any> = {
  option: () => option("-o", "--o", string()),
  int: () => option("-n", integer({ min: 0 })),
  flag: () => flag("-f"),
  neg: () => negatableFlag({ positive: "-y", negative: "-n" }),
  arg: () => argument(integer()),
  object: () => object({ a: option("-a", string()), b: flag("-b") }),
  tuple: () => tuple([option("-a", string()), argument(string())]),
  or: () => or(object({ k: constant(1), a: flag("-a"), n: option("-n", integer()) }), object({ k: constant(2), b: flag("-b") })),
  longest: () => longestMatch(object({ a: flag("-a") }), object({ a: flag("-a"), b: option("-b", string()) })),
  command: () => command("go", object({ a: flag("-a"), x: argument(string()) }), { aliases: ["g"] }),
  some: () => multiple(option("-o", string()), { min: 1, max: 2 }),
  mapped: () => map(option("-n", integer()), (n) => [n]),
  merged: () => merge(object({ a: flag("-a") }), object({ x: argument(string()) })),
  grouped: () => nonEmpty(object({ a: option("-a"), n: withDefault(option("-n", integer()), 5) })),
};
const D = { default: true };
export default {
  name: "laws",
  bounds: "14 parsers that need input (options, flags, arguments, objects, tuples, choices, commands, repetition, mapping, nonEmpty) under optional, withDefault (value, function, throwing function), deferredValue, map, nonEmpty and doubled; command lines of 0-3 tokens of 0-3 printable ASCII characters",
  assumptions: ["single-dash tokens of three or more characters are letters and digits only", "a command line that is only -- is left out"],
  covers: ["accepted", "rejected", "absent"],
  cases(tier: string) {
    const out: any[] = [];
    for (const g of Object.keys(PARSERS)) {
      for (let k = 0; k <= 2; k++) for (const l of lengths(k, k > 1 ? 1 : 0, tier === "quick" && k > 1 ? 2 : 3)) out.push([g, l]);
      for (const l of lengths(3, 1, 2)) out.push([g, l]);
      if (tier !== "quick") for (const l of [...lengths(4, 1, 2), ...lengths(3, 1, 3)]) out.push([g, l]);
    }
    return out;
  },
  run(sx: any) {
    const [g, lens] = sx.case;
    const args = tokens(sx, lens);
    noOddBundles(sx, args);
    if (args.length === 1) sx.assume(args[0] !== "--");
    const mk = PARSERS[g];
    const base = parse(mk(), args) as any;
    let calls = 0;
    const r: Record<string, any> = {
      optional: parse(optional(mk()), args),
      withDefault: parse(withDefault(mk(), D), args),
      lazy: parse(withDefault(mk(), () => { calls++; return D; }), args),
      throwing: parse(withDefault(mk(), () => { throw new WithDefaultError(message`no default`); }), args),
      deferred: parse(deferredValue(mk(), () => D), args),
      mapped: parse(map(mk(), (v: any) => ({ v })), args),
      nonEmpty: parse(nonEmpty(mk()), args),
      twice: parse(withDefault(optional(mk()), D as any), args),
      both: parse(optional(withDefault(mk(), D)), args),
      field: parse(object({ p: optional(mk()) }), args),
    };
    sx.observe("base", base.success);
    for (const k of Object.keys(r)) sx.observe(k, r[k].success);
    if (args.length === 0) {
      if (g === "tuple") return; // see absent.ts
      sx.cover("absent");
      sx.assert(!base.success, "a parser that needs input accepts nothing");
      for (const k of ["optional", "withDefault", "lazy", "deferred", "twice", "both", "field"]) sx.assert(r[k].success, k + ": absence is rejected");
      sx.assert(r.optional.value === undefined, "optional: absence is not undefined");
      sx.assert(r.withDefault.value === D, "withDefault: absence is not the default");
      sx.assert(r.lazy.value === D && calls >= 1, "withDefault: absence does not use the computed default");
      sx.assert(!r.throwing.success, "withDefault: an error computing the default is ignored");
      sx.assert(r.deferred.value.source === "fallback" && r.deferred.value() === D, "deferredValue: absence does not select the fallback");
      sx.assert(!r.nonEmpty.success && !r.mapped.success, "nonEmpty/map: absence is accepted");
      sx.assert(r.both.value === D, "optional(withDefault): absence is not the default");
      return;
    }
    if (!base.success) {
      sx.cover("rejected");
      for (const k of Object.keys(r)) sx.assert(!r[k].success, k + ": the modifier hides an error in what was given");
      return;
    }
    sx.cover("accepted");
    sx.observe("value", base.value);
    for (const k of Object.keys(r)) {
      sx.assert(r[k].success, k + ": the modifier rejects what the parser accepts");
      const v = k === "deferred" ? r[k].value() : k === "mapped" ? r[k].value.v : k === "field" ? r[k].value.p : r[k].value;
      sx.assert(sx.eq(v, base.value), k + ": the modifier changes the value given");
    }
    sx.assert(calls === 0, "withDefault: the default is computed although a value is given");
    sx.assert(r.deferred.value.source === "specified", "deferredValue: a given value counts as absent");
  },
};
