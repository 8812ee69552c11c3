import * as v from "valibot";
import { message } from "@optique/core/message";
import { valibot, valibotAsync } from "@repo/packages/valibot/src/index.ts";
const CH: any = [[0x21, 0x7e]];
const M = "refused";
interface Spec { schema: any; words?: any[]; metavar: string; async?: boolean; lazy?: boolean; loose?: boolean }
const S: Record<string, (a: any, b: any, c: any) => Spec> = {
  string: () => ({ schema: v.string(M), metavar: "STRING" }),
  min: () => ({ schema: v.pipe(v.string(M), v.minLength(2, M)), metavar: "STRING" }),
  check: (a) => ({ schema: v.pipe(v.string(M), v.check((x: any) => x !== a, M)), metavar: "STRING" }),
  optional: () => ({ schema: v.optional(v.string(M)), metavar: "STRING" }),
  number: () => ({ schema: v.number(M), metavar: "NUMBER" }),
  boolean: () => ({ schema: v.boolean(M), metavar: "BOOLEAN" }),
  transform: () => ({ schema: v.pipe(v.string(M), v.transform((x: any) => [x, x.length])), metavar: "VALUE", loose: true }),
  picklist: (a, b, c) => ({ schema: v.picklist([a, b, c], M), words: [a, b, c], metavar: "CHOICE" }),
  numbers: () => ({ schema: v.picklist([1, 2], M), metavar: "CHOICE" }),
  literal: (a) => ({ schema: v.literal(a, M), words: [a], metavar: "CHOICE" }),
  one: () => ({ schema: v.literal(1, M), metavar: "VALUE" }),
  union: (a, b, c) => ({ schema: v.union([v.literal(a, M), v.picklist([b, c], M)], M), words: [a, b, c], metavar: "CHOICE" }),
  mixed: (a) => ({ schema: v.union([v.literal(a, M), v.pipe(v.string(M), v.minLength(2, M))], M), metavar: "VALUE" }),
  wrapped: (a, b) => ({ schema: v.nullish(v.nullable(v.optional(v.picklist([a, b], M)))), words: [a, b], metavar: "CHOICE" }),
  lazy: (a) => ({ schema: v.lazy(() => v.literal(a, M)), metavar: "VALUE" }),
  async: (a) => ({ schema: (v as any).pipeAsync(v.string(M), (v as any).checkAsync(async (x: any) => x !== a, M)), metavar: "STRING", async: true }),
  inner: (a) => ({ schema: (v as any).optional((v as any).pipeAsync(v.string(M), (v as any).checkAsync(async (x: any) => x !== a, M))), metavar: "STRING", async: true, lazy: true }),
  arm: (a, b) => ({ schema: v.union([v.literal(b, M), (v as any).pipeAsync(v.string(M), (v as any).checkAsync(async (x: any) => x !== a, M))] as any, M), metavar: "VALUE", async: true, lazy: true }),
  wrapper: (a) => ({ schema: (v as any).optionalAsync((v as any).pipeAsync(v.string(M), (v as any).checkAsync(async (x: any) => x !== a, M))), metavar: "STRING", async: true }),
  shadowed: (a) => ({ schema: v.union([v.unknown(), (v as any).pipeAsync(v.string(M), (v as any).checkAsync(async (x: any) => x !== a, M))] as any, M), metavar: "VALUE" }),
  fallback: (a) => ({ schema: v.fallback(v.literal(a, M), "D"), words: [a], metavar: "CHOICE" }),
};
export default {
  name: "valibot",
  bounds: "21 schemas (strings, checks, transformations, picklists, literals and unions of three unknown words of 1-2 characters, wrappers, lazy and asynchronous schemas); inputs of 0-3 and prefixes of 0-2 characters, every one unknown; own messages given, computed or absent",
  assumptions: ["while exploring, valibot is a stand-in for the schema kinds named; every path is replayed with the real library"],
  covers: ["accepted", "refused", "suggested", "asynchronous check"],
  cases() {
    const out: any[] = [];
    let n = 0;
    for (const s of Object.keys(S)) for (const errors of ["none", "text", "call"]) for (const len of [0, 1, 2, 3]) {
      out.push([s, errors, len, "parse", n++]);
      if (errors === "none" && len < 3) out.push([s, errors, len, "suggest", n++]);
    }
    return out;
  },
  async run(sx: any) {
    const [name, errors, len, what, n] = sx.case;
    const words = ["a", "b", "c"].map((k, i) => sx.str(k, { len: 1 + (n + i) % 2, chars: CH }));
    const spec = S[name](words[0], words[1], words[2]);
    const calls: any[] = [];
    const mine = message`mine`;
    const options: any = { placeholder: "P", errors: errors === "none" ? undefined : { valibotError: errors === "text" ? mine : (e: any, input: any) => { calls.push([e, input]); return mine; } } };
    const input = sx.str("input", { len, chars: CH });
    const q: any = valibotAsync(spec.schema, options);
    let p: any, refused: any;
    try { p = valibot(spec.schema, options); } catch (e) { refused = e; }
    if (spec.async) { sx.cover("asynchronous check"); sx.assert(refused instanceof TypeError, "an asynchronous schema is not refused by the synchronous parser"); }
    else sx.assert(refused === undefined, "a synchronous schema is refused");
    if (spec.lazy) return; // not well typed: valibot has asynchronous wrappers of its own
    for (const x of p ? [p, q] : [q]) sx.assert(x.placeholder === "P" && x.metavar === spec.metavar && x.mode === (x === p ? "sync" : "async"), "a schema's parser has another mode, placeholder or metavariable");
    const all = async (it: any) => { const l: any[] = []; for await (const x of it) l.push(x.text); return l; };
    if (what === "suggest") {
      for (const parser of p ? [p, q] : [q]) {
        if (spec.words === undefined) { sx.assert(parser.suggest === undefined && parser.choices === undefined, "choices are offered for a schema that need not accept them"); continue; }
        const got = await all(parser.suggest(input));
        for (const t of spec.words) {
          const want = sx.is(t.startsWith(input));
          if (want) sx.cover("suggested");
          sx.assert(want === got.some((g: any) => sx.is(sx.eq(g, t))), want ? "a choice is not suggested" : "a choice is suggested which does not start with the prefix");
        }
        sx.assert(got.every((g: any) => spec.words!.some((t) => sx.is(sx.eq(g, t)))), "a text is suggested which is not a choice");
        for (const c of parser.choices) {
          const r = await parser.parse(parser.format(c));
          sx.assert(r.success && sx.is(sx.eq(r.value, c)), "a choice is not read back as itself");
        }
      }
      return;
    }
    const want: any = await v.safeParseAsync(spec.schema, input);
    const got: any[] = [[await q.parse(input), " (async)"]];
    if (p) got.push([p.parse(input), ""]);
    sx.observe("ok", got[0][0].success);
    for (const [r, note] of got) {
      sx.assert(r.success === want.success, "a text is accepted or refused otherwise than by the schema" + note);
      if (r.success) { sx.cover("accepted"); sx.assert(sx.eq(r.value, want.output), "the value is not the schema's" + note); continue; }
      sx.cover("refused");
      if (errors !== "none") sx.assert(r.error === mine, "the message given is not used" + note);
      else sx.assert(sx.eq(r.error, message`${M}`), "the schema's first message is not used" + note);
    }
    if (errors === "call" && !want.success) sx.assert(calls.length === got.length && calls.every(([e, t]: any) => sx.is(sx.eq(t, input)) && e.length > 0), "the message is computed from something else than the issues and the text");
    if (want.success && !spec.loose && name !== "fallback") sx.assert(sx.eq(q.format(want.output), input), "a value is not shown as the text it was read from");
  },
};
