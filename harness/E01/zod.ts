import { z } from "zod";
import { message } from "@optique/core/message";
import { zod, zodAsync } from "@repo/packages/zod/src/index.ts";
const CH: any = [[0x21, 0x7e]];
const M = "refused";
interface Spec { schema: any; bool?: boolean; coerced?: boolean; words?: any[]; metavar: string; async?: boolean; loose?: boolean }
const short = (v: any) => v.length <= 1;
// schemas over the case's unknown words a, b, c
const S: Record<string, (a: any, b: any, c: any) => Spec> = {
  string: () => ({ schema: z.string(M), metavar: "STRING" }),
  min: () => ({ schema: z.string(M).min(2, M), metavar: "STRING" }),
  optional: () => ({ schema: z.string(M).min(1, M).optional(), metavar: "STRING" }),
  refined: (a) => ({ schema: z.string(M).refine((v: any) => v !== a, M), metavar: "STRING" }),
  transformed: () => ({ schema: z.string(M).transform((v: any) => [v, v.length]), metavar: "VALUE", loose: true }),
  enum: (a, b, c) => ({ schema: z.enum([a, b, c], M), words: [a, b, c], metavar: "CHOICE" }),
  numeric: () => ({ schema: z.enum({ A: 0, B: 1, 0: "A", 1: "B" } as any, M), metavar: "VALUE", loose: true }),
  literal: (a) => ({ schema: z.literal(a, M), words: [a], metavar: "CHOICE" }),
  literals: (a, b) => ({ schema: z.literal([a, b], M), words: [a, b], metavar: "CHOICE" }),
  number: () => ({ schema: z.literal(1, M), metavar: "VALUE" }),
  union: (a, b, c) => ({ schema: z.union([z.literal(a, M), z.enum([b, c], M)], M), words: [a, b, c], metavar: "CHOICE" }),
  mixed: (a) => ({ schema: z.union([z.literal(a, M), z.string(M).min(2, M)], M), metavar: "VALUE" }),
  choice: (a, b) => ({ schema: z.enum([a, b], M).optional(), words: [a, b], metavar: "CHOICE" }),
  fallback: (a, b) => ({ schema: z.enum([a, b], M).default(a), words: [a, b], metavar: "CHOICE" }),
  nullable: (a, b) => ({ schema: z.union([z.literal(a, M), z.literal(b, M)], M).nullable(), words: [a, b], metavar: "CHOICE" }),
  boolean: () => ({ schema: z.boolean(M), bool: true, metavar: "BOOLEAN", words: [] }),
  boolopt: () => ({ schema: z.boolean(M).optional().nullable(), bool: true, metavar: "BOOLEAN", words: [] }),
  boollazy: () => ({ schema: z.lazy(() => z.boolean(M).default(true)), bool: true, metavar: "BOOLEAN", words: [] }),
  boolro: () => ({ schema: z.boolean(M).readonly(), bool: true, metavar: "BOOLEAN", words: [] }),
  boolcatch: () => ({ schema: z.boolean(M).catch(true), bool: true, metavar: "BOOLEAN" }),
  boolpipe: () => ({ schema: z.boolean(M).transform((v: any) => v ? "on" : "off"), bool: true, metavar: "BOOLEAN", loose: true }),
  booltrue: () => ({ schema: z.boolean(M).refine((v: any) => v === true, M), bool: true, metavar: "BOOLEAN" }),
  coerced: () => ({ schema: z.coerce.boolean(M), bool: true, coerced: true, metavar: "BOOLEAN", words: [] }),
  coercedpipe: () => ({ schema: z.coerce.boolean(M).pipe(z.literal(true, M)), bool: true, coerced: true, metavar: "BOOLEAN" }),
  preprocess: () => ({ schema: z.preprocess((v: any) => v === "Q", z.boolean(M)), metavar: "VALUE", loose: true }),
  asyncref: (a) => ({ schema: z.string(M).refine(async (v: any) => v !== a, M), metavar: "STRING", async: true }),
  asyncbool: () => ({ schema: z.boolean(M).refine(async (v: any) => v, M), metavar: "BOOLEAN", bool: true, async: true }),
};
const TRUE = ["true", "1", "yes", "on"], FALSE = ["false", "0", "no", "off"];
export default {
  name: "zod",
  bounds: "27 schemas (strings, refinements, transformations, enumerations, literals and unions of three unknown words of 1-2 characters, Booleans in 10 wrappings, preprocessing, asynchronous checks); inputs of 0-3 characters, every one unknown, and for Booleans inputs of 0-7 characters of the literals' letters in either case and blanks; own messages given, computed or absent; prefixes of 0-2 characters",
  assumptions: ["while exploring, zod is a stand-in for the schema kinds named; every path is replayed with the real library"],
  covers: ["accepted", "refused", "literal", "suggested", "asynchronous check"],
  cases(tier: string) {
    const out: any[] = [];
    let n = 0;
    for (const s of Object.keys(S)) for (const errors of ["none", "text", "call"]) {
      const probe = S[s]("a", "b", "c");
      for (const len of probe.bool ? [0, 1, 2, 3, 4, 5, 6, 7] : [0, 1, 2, 3]) {
        if (tier === "quick" && errors !== "none" && len !== 2 && len !== 4) continue;
        if (tier === "quick" && len > 5 && s !== "boolean") continue;
        out.push([s, errors, len, "parse", n++]);
      }
      if (errors === "none") for (const len of [0, 1, 2]) out.push([s, errors, len, "suggest", n++]);
    }
    return out;
  },
  async run(sx: any) {
    const [name, errors, len, what, n] = sx.case;
    const words = ["a", "b", "c"].map((k, i) => sx.str(k, { len: 1 + (n + i) % 2, chars: CH }));
    const spec = S[name](words[0], words[1], words[2]);
    const calls: any[] = [];
    const mine = message`mine`;
    const options: any = { placeholder: "P", errors: errors === "none" ? undefined : { zodError: errors === "text" ? mine : (e: any, input: any) => { calls.push([e, input]); return mine; } } };
    const input = spec.bool ? sx.str("input", { len, chars: what === "suggest" ? CH : "truefalsyno10TREYNOFSA \t" }) : sx.str("input", { len, chars: CH });
    const p: any = zod(spec.schema, options), q: any = zodAsync(spec.schema, options);
    sx.assert(p.mode === "sync" && q.mode === "async" && p.placeholder === "P" && q.placeholder === "P", "a schema's parser has another mode or placeholder");
    sx.assert(p.metavar === spec.metavar && q.metavar === spec.metavar, "the metavariable is not the one for the schema");
    sx.assert(zod(spec.schema, { ...options, metavar: "X" }).metavar === "X", "the metavariable given is not used");
    const all = async (it: any) => { const l: any[] = []; for await (const x of it) l.push(x.text); return l; };
    const texts: any[] = spec.bool ? [...TRUE, ...FALSE] : spec.words ?? [];
    if (what === "suggest") {
      for (const [i, parser] of [p, q].entries()) {
        if (spec.words === undefined) { sx.assert(parser.suggest === undefined && parser.choices === undefined, "choices are offered for a schema that need not accept them"); continue; }
        const got = await all(parser.suggest(input));
        const key = spec.bool ? input.toLowerCase() : input;
        for (const t of texts) {
          const want = sx.is(t.startsWith(key));
          if (want) sx.cover("suggested");
          sx.assert(want === got.some((g: any) => sx.is(sx.eq(g, t))), want ? "a choice is not suggested" : "a choice is suggested which does not start with the prefix");
        }
        sx.assert(got.every((g: any) => texts.some((t) => sx.is(sx.eq(g, t)))), "a text is suggested which is not a choice");
        // each once, and each choice reads back to itself
        for (const g of got) sx.assert(got.filter((h: any) => sx.is(sx.eq(g, h))).length === 1, "a choice is suggested twice");
        for (const c of parser.choices) {
          const r = await parser.parse(parser.format(c));
          sx.assert(r.success && sx.is(sx.eq(r.value, c)), "a choice is not read back as itself" + (i ? " (async)" : ""));
        }
        for (const g of got) sx.assert((await parser.parse(g)).success, "a suggested text is refused");
      }
      return;
    }
    // what the schema itself says of the text, or of the Boolean it spells
    let lit: boolean | undefined;
    if (spec.bool) {
      const t = input.trim().toLowerCase();
      if (TRUE.some((x) => sx.is(sx.eq(t, x)))) lit = true;
      else if (FALSE.some((x) => sx.is(sx.eq(t, x)))) lit = false;
      if (lit !== undefined) sx.cover("literal");
    }
    const given = lit ?? input;
    const no = spec.coerced && lit === undefined;
    const want: any = no ? { success: false } : await spec.schema.safeParseAsync(given);
    let got: any, threw: any;
    try { got = p.parse(input); } catch (e) { threw = e; }
    const later: any = await q.parse(input);
    // a Boolean's asynchronous check does not run for what is not a Boolean
    const waits = spec.async && !(spec.bool && lit === undefined);
    if (waits) { sx.cover("asynchronous check"); sx.assert(threw instanceof TypeError, "an asynchronous schema is not refused by the synchronous parser"); }
    else sx.assert(threw === undefined, "reading a text throws");
    sx.observe("ok", later.success);
    for (const [r, sync] of waits ? [[later, false]] : [[got, true], [later, false]] as any) {
      sx.assert(r.success === want.success, "a text is accepted or refused otherwise than by the schema" + (sync ? "" : " (async)"));
      if (r.success) { sx.cover("accepted"); sx.assert(sx.eq(r.value, want.data), "the value is not the schema's" + (sync ? "" : " (async)")); continue; }
      sx.cover("refused");
      if (errors !== "none") sx.assert(r.error === mine, "the message given is not used");
      else if (!no) sx.assert(sx.eq(r.error, message`${M}`), "the schema's first message is not used");
      else sx.assert(r.error.length > 0, "there is no message");
    }
    if (errors === "call" && !want.success) sx.assert(calls.length === (waits ? 1 : 2) && calls.every(([e, t]: any) => sx.is(sx.eq(t, input)) && e.issues.length > 0), "the message is computed from something else than the issues and the text");
    if (want.success && !spec.loose && typeof want.data === "string") sx.assert(sx.eq(p.format(want.data), input), "a value is not shown as the text it was read from");
  },
};
