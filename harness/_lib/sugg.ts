// Grammars in which nothing is required, so that every command line that is
// read without an error is complete, and the candidates completion can offer.
import { concat, conditional, group, longestMatch, merge, object, or, seq, tuple } from "@optique/core/constructs";
import { argument, command, constant, flag, negatableFlag, option } from "@optique/core/primitives";
import { map, multiple, optional, withDefault } from "@optique/core/modifiers";
import { parse, suggestSync } from "@optique/core/parser";
import { choice } from "@optique/core/valueparser";

const opt: any = option;
export const SG: Record<string, { make: () => any; words: string[]; hidden?: string[] }> = {
  flat: {
    make: () => object({ v: opt("-v", "--verbose"), o: optional(opt("-o", "--out", choice(["aa", "ab", "b"]))), x: optional(argument(choice(["pa", "pb"]))) }),
    words: ["-v", "--verbose", "-o", "--out", "aa", "ab", "b", "pa", "pb"],
  },
  hidden: {
    make: () => object({ v: opt("-v", "--ver"), s: opt("-s", "--sec", { hidden: true }), t: optional(opt("-t", choice(["q1", "q2"]), { hidden: true })), d: opt("-d", { hidden: "doc" }), c: optional(command("go", constant(1), { hidden: true })) }),
    words: ["-v", "--ver", "-d"], hidden: ["-s", "--sec", "-t", "q1", "q2", "go"],
  },
  commands: {
    make: () => object({ g: opt("-g", "--glob"), c: optional(or(command("add", object({ n: optional(opt("-n", "--num", choice(["1", "12"]))) })), command("ado", object({ f: multiple(flag("-f")), x: multiple(argument(choice(["m", "mm"]))) })), command("b", constant(1), { aliases: ["bb"] }))) }),
    words: ["-g", "--glob", "add", "ado", "b", "-n", "--num", "1", "12", "-f", "m", "mm"],
  },
  nestedCommands: {
    make: () => optional(or(command("a", object({ c: optional(or(command("x", object({ p: opt("-p") })), command("y", constant(2)))), q: opt("-q") })), command("ab", constant(1)))),
    words: ["a", "ab", "x", "y", "-p", "-q"],
  },
  merge: {
    make: () => merge(object({ a: opt("-a"), m: optional(opt("-m", choice(["s", "st"]))) }), group("G", object({ n: withDefault(negatableFlag({ positive: "-y", negative: "-n" }), true), x: multiple(argument(choice(["k", "kk"]))) })), object({ b: map(multiple(opt("--bb", choice(["1"]))), (v: any) => v.length) })),
    words: ["-a", "-m", "s", "st", "-y", "-n", "k", "kk", "--bb", "1"],
  },
  tuple: {
    make: () => tuple([opt("-a", "--al"), optional(opt("-o", choice(["v", "vv"]))), optional(argument(choice(["k", "kk"])))]),
    words: ["-a", "--al", "-o", "v", "vv", "k", "kk"],
  },
  concat: {
    make: () => concat(tuple([opt("-a")]), tuple([multiple(opt("-o", choice(["v", "w"]))), multiple(argument(choice(["k", "kk"])), { max: 2 })])),
    words: ["-a", "-o", "v", "w", "k", "kk"],
  },
  or: {
    make: () => withDefault(or(object({ a: flag("-a", "--aa"), c: opt("-c") }), object({ b: flag("-b", "--bb"), c: opt("-c") })), {} as any),
    words: ["-a", "--aa", "-b", "--bb", "-c"],
  },
  orInner: {
    make: () => object({ z: opt("-z"), o: optional(or(flag("-a"), flag("-b"), opt("-o", choice(["u", "uu"])), argument(choice(["k"])))) }),
    words: ["-z", "-a", "-b", "-o", "u", "uu", "k"],
  },
  longest: {
    make: () => withDefault(longestMatch(object({ a: flag("-a") }), object({ a: flag("-a"), b: opt("-b") })), {} as any),
    words: ["-a", "-b"],
  },
  conditional: {
    make: () => conditional(opt("-t", "--ty", choice(["a", "b"])), { a: object({ p: opt("-p") }), b: object({ q: optional(opt("-q", choice(["z"]))) }) }, object({ d: opt("-d") })),
    words: ["-t", "--ty", "a", "b", "-p", "-q", "z", "-d"],
  },
  marks: {
    make: () => object({ s: opt("/s"), t: optional(opt("/t", choice(["1", "2"]))), p: opt("+p"), w: optional(opt("--w", choice(["x=y", "x=z", "-n"]))) }),
    words: ["/s", "/t", "1", "2", "+p", "--w", "x=y", "x=z", "-n"],
  },
  repeated: {
    make: () => object({ f: multiple(flag("-f"), { max: 2 }), o: multiple(opt("-o", choice(["v", "w"])), { max: 1 }), x: multiple(argument(choice(["k", "l"])), { max: 2 }) }),
    words: ["-f", "-o", "v", "w", "k", "l"],
  },
  args: {
    make: () => object({ x: optional(argument(choice(["a", "b"]))), y: optional(argument(choice(["c", "d"]))) }),
    words: ["a", "b", "c", "d"],
  },
  seq: {
    make: () => seq(object({ v: opt("-v") }), object({ w: opt("-w"), c: optional(command("go", object({ o: opt("-o") }))) })),
    words: ["-v", "-w", "go", "-o"],
  },
};
const SAME = [["-v", "--verbose"], ["-v", "--ver"], ["-o", "--out"], ["-a", "--aa"], ["-a", "--al"], ["-b", "--bb"], ["-g", "--glob"], ["-n", "--num"], ["-t", "--ty"], ["-y", "-n"]];
/** Was option `t`, or another name of it, given among `before` (alone, joined or in a bundle)? */
export const given = (sx: any, before: string[], t: string): boolean => {
  if (!/^[-/+]/.test(t)) return false;
  const names = [t, ...SAME.filter((x) => x.includes(t)).flat()];
  return before.some((b) => names.some((n) =>
    b.length >= n.length && sx.is(sx.eq(b.slice(0, n.length), n)) ||
    n.length === 2 && n[0] === "-" && b.length > 2 && sx.is(sx.eq(b[0], "-")) && !sx.is(sx.eq(b[1], "-")) && Array.from({ length: b.length - 2 }, (_, i) => b[i + 2]).some((c) => sx.is(sx.eq(c, n[1])))));
};
/** Is `line` read without an error? */
export const reads = (sx: any, g: any, line: string[]): boolean => sx.is((parse(g, line) as any).success);
/** Can `line` be completed with at most one further word? */
export const extends1 = (sx: any, g: any, line: string[], words: string[]): boolean => {
  if (reads(sx, g, line)) return true;
  for (const w of words) if (reads(sx, g, [...line, w])) return true;
  return false;
};
export const offered = (g: any, line: string[], prefix: string): string[] =>
  [...suggestSync(g, [...line, prefix] as any)].filter((s: any) => s.kind === "literal").map((s: any) => s.text);
export const CH: any = [[0x21, 0x7e]];
export const line = (sx: any, lens: number[]) => lens.map((n, i) => sx.str("t" + i, { len: n, chars: CH }));
export const suggestCases = (tier: string) => {
  const out: any[] = [];
  for (const g of Object.keys(SG)) for (const l of tier === "quick" ? [[], [1], [2], [3], [2, 1], [1, 2], [2, 2]] : [[], [1], [2], [3], [4], [5], [2, 1], [1, 1], [1, 2], [2, 2], [2, 3], [3, 2], [2, 1, 2], [2, 2, 2], [1, 2, 1], [3, 1], [5, 2], [2, 2, 1]])
    for (const p of tier === "quick" ? [0, 1, 2, 3] : [0, 1, 2, 3, 4, 5]) if (l.length < 2 || p < 3 || tier !== "quick") out.push([g, l, p]);
  return out;
};
