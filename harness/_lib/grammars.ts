// A varied collection of grammars, parameterised by how value parsers are made.
import { concat, conditional, group, longestMatch, merge, object, or, seq, tuple } from "@optique/core/constructs";
import { argument, command, constant, fail, flag, negatableFlag, option, passThrough } from "@optique/core/primitives";
import { deferredValue, map, multiple, nonEmpty, optional, withDefault } from "@optique/core/modifiers";
import { choice, integer, string } from "@optique/core/valueparser";

export type Wrap = (vp: any) => any;
export const GRAMMARS: Record<string, (w: Wrap) => any> = {
  simple: (w) => object({ v: option("-v", "--v"), o: optional(option("-o", "--oo", w(string()))), x: argument(w(integer())) }),
  repeated: (w) => object({ i: multiple(option("-i", w(integer())), { max: 2 }), f: multiple(flag("-f")), x: multiple(argument(w(string())), { min: 1, max: 2 }) }),
  tuple: (w) => tuple([option("-a", w(string())), withDefault(option("-b", w(integer())), 3), argument(w(string()))]),
  or: (w) => or(object({ k: constant("a"), a: option("-a", w(integer())), v: option("-v") }), object({ k: constant("b"), b: flag("-b"), v: option("-v") }), command("c", object({ k: constant("c"), x: optional(argument(w(string()))) }))),
  longest: (w) => longestMatch(object({ a: option("-a", w(string())) }), object({ a: option("-a", w(string())), b: option("-b", w(integer())) }), object({ x: argument(w(string())) })),
  merge: (w) => merge(object({ a: option("-a"), m: map(optional(option("-m", w(string()))), (s: any) => [s]) }), group("G", object({ n: negatableFlag({ positive: "-y", negative: "-n" }), x: argument(w(choice(["a", "bb"]))) })), or(object({ p: flag("-p") }), object({ q: option("-q", w(string())) }))),
  concat: (w) => concat(tuple([option("-a", w(string()))]), tuple([multiple(argument(w(integer())))])),
  commands: (w) => object({ g: option("-g"), c: or(command("a", object({ n: withDefault(option("-n", w(integer())), 1) }), { aliases: ["aa"] }), command("b", or(command("x", object({ x: argument(w(string())) })), command("y", constant("y"))))) }),
  seq: (w) => seq(argument(w(string())), object({ v: option("-v") }), command("go", object({ o: optional(option("-o", w(string()))) }))),
  conditional: (w) => conditional(option("-t", w(choice(["a", "b"]))), { a: object({ p: option("-p", w(integer())) }), b: object({ q: optional(option("-q", w(string()))), x: argument(w(string())) }) }, object({ d: option("-d") })),
  pass: (w) => object({ v: option("-v"), o: optional(option("-o", w(string()))), r: passThrough() }),
  greedy: (w) => object({ v: option("-v"), x: argument(w(string())), r: passThrough({ format: "greedy" }) }),
  nextToken: (w) => object({ v: option("-v"), r: passThrough({ format: "nextToken" }), x: optional(argument(w(string()))) }),
  defaults: (w) => or(nonEmpty(object({ a: withDefault(option("-a", w(string())), "d"), b: optional(option("-b", w(integer()))) })), object({ k: constant("none") })),
  deferred: (w) => object({ d: map(deferredValue(option("-d", w(integer())), () => 7), (d: any) => d.source), f: withDefault(fail() as any, 1), x: optional(argument(w(string()))) }),
};
