import { createProgramParser, defineCommand } from "@optique/discover";
import { argument, constant, option } from "@optique/core/primitives";
import { map, multiple, optional } from "@optique/core/modifiers";
import { object } from "@optique/core/constructs";
import { parse, suggest } from "@optique/core/parser";
import { integer, string } from "@optique/core/valueparser";

const KIND: Record<string, () => any> = {
  flags: () => object({ o: optional(option("-o", string())), v: option("-v") }),
  word: () => object({ v: option("-v"), w: optional(argument(string())) }),
  words: () => object({ v: option("-v"), ws: multiple(argument(string())) }),
  needs: () => object({ n: option("-n", integer()) }),
  must: () => object({ w: argument(string()), v: option("-v") }),
  none: () => constant("none"),
};
// "path:kind" or "path=alias:kind", the empty path is the program itself
const PROGRAMS: string[][] = [
  ["a:flags", "b:word"], ["a:word", "a b:flags"], ["a:flags", "a b:needs", "a b a:word"], [":flags", "a:word"], [":word", "a:flags", "b:must"],
  ["a b:flags", "a a:word", "b:none"], ["a:needs", "a b:word"], ["a:must", "a b:flags"], [":words", "a:words", "a b:words"], ["a:words", "a a:words"],
  [":needs", "a:none"], ["ab:flags", "a:flags", "b:must"], ["a:none", "a b:none"], [":none", "a:none", "a b:flags"], ["a b:word", "a:words", "ab:none"], ["a b a:must", "a b:needs"],
  // with second names: "a=c" is also called c
  ["a=c:flags", "a b=c:word"], ["a=ab:must", "b=c:word"], ["a=b:word", "a b=a:flags", "ab=c:none"], [":flags", "a=c:words", "a b=ab:needs"],
];
// lengths of the tokens; a leading minus makes a token an option
const LINES: number[][] = [[], [1], [1, 1], [1, -2], [1, 1, -2], [1, -2, 1], [-2, 1], [1, 1, 1], [1, -2, 1, 1], [2], [2, -2], [1, 1, -2, 1], [1, 2, 1], [-2], [1, 1, 1, -2], [1, 1, -2, 1, 1]];
export default {
  name: "dispatch",
  bounds: "20 programs of 2-3 commands up to three levels deep, parents with and without a command of their own, second names, six kinds of command grammar; command lines of 0-5 tokens of 1-2 characters, every character unknown; completion after every line",
  assumptions: ["where a parent's own grammar also takes words, the name of a sub-command names the sub-command as long as the parent's own grammar has read nothing"],
  covers: ["root", "leaf", "parent", "deep", "error"],
  cases(tier: string) {
    const out: any[] = [];
    for (let p = 0; p < PROGRAMS.length; p++) for (let l = 0; l < LINES.length; l++) if (tier !== "quick" || LINES[l].length < 3 || (p + l) % 2 === 0) for (const order of [0, 1]) if ((p + l + order) % 2 === 0 || tier !== "quick") out.push([p, l, order]);
    return out;
  },
  run(sx: any) {
    const [p, l, order] = sx.case;
    const entries = PROGRAMS[p].map((s: string) => {
      const [said, kind] = s.split(":"), [path, alias] = said.split("=");
      const parser = KIND[kind]();
      return { path: path === "" ? [] : path.split(" "), parser, alias, command: defineCommand({ parser, handler() {}, ...(alias && { metadata: { aliases: [alias] } }) } as any) };
    });
    const program = createProgramParser((order ? [...entries].reverse() : entries).map((e: any) => ({ path: e.path, command: e.command })));
    const args: string[] = LINES[l].map((n: number, i: number) => n > 0 ? sx.str("t" + i, { len: n, chars: "abc1" }) : sx.str("t" + i, { len: -n, chars: "-novq", at: { 0: "-" } }));
    const got: any = parse(program as any, args);
    // what the line means: the deepest command its words name, and that command's own reading of the rest
    let at: string[] = [], k = 0;
    const has = (path: string[]) => entries.some((e: any) => path.every((s, i) => e.path[i] === s));
    while (k < args.length) {
      const next = ["a", "b", "ab"].find((n) => has([...at, n]) && (sx.is(sx.eq(args[k], n)) || entries.some((e: any) => e.alias && e.path.length === at.length + 1 && e.path.every((s, i) => s === [...at, n][i]) && sx.is(sx.eq(args[k], e.alias)))));
      if (next === undefined) break;
      at = [...at, next];
      k++;
    }
    const own = entries.find((e: any) => e.path.length === at.length && e.path.every((s: string, i: number) => s === at[i]));
    const want: any = own ? parse(own.parser as any, args.slice(k)) : { success: false };
    sx.cover(!want.success ? "error" : at.length === 0 ? "root" : at.length > 1 ? "deep" : entries.some((e: any) => e.path.length > at.length && e.path[0] === at[0]) ? "parent" : "leaf");
    if (sx.is(got.success) !== sx.is(want.success)) { sx.observe("got", got.success); sx.fail("a command line is not read as the command it names reads it"); return; }
    if (!want.success) return;
    sx.assert(got.value.command === own!.command, "another command is run than the one named");
    sx.assert(got.value.handler === own!.command.handler, "another handler is run than the command's own");
    sx.assert(got.value.path.length === at.length && got.value.path.every((s: string, i: number) => s === at[i]), "an invocation states another path than the one named");
    sx.assert(sx.eq(got.value.value, want.value), "a command is given another value than its own grammar reads");
  },
};
