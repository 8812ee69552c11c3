import { message, text } from "@optique/core/message";
import { standardSchema, standardSchemaAsync } from "@repo/packages/standard-schema/src/index.ts";
const CH: any = [[0x20, 0x7e]];
export default {
  name: "standard",
  bounds: "a validator that accepts the texts starting with an unknown character and turns them into texts, numbers, lists, objects or dates, refuses the others with 0-2 issues of unknown messages of 0-3 characters, at once or through a promise; texts of 0-3 characters, every one unknown; own messages and formatters given or not; malformed schemas and options",
  assumptions: [],
  covers: ["accepted", "refused", "promise", "rejected", "malformed"],
  cases() {
    const out: any[] = [];
    for (const out_ of ["text", "number", "list", "object", "bare", "date", "null", "fn"]) for (const via of ["sync", "async", "thenable", "reject"]) for (const errors of ["none", "text", "call"]) for (const issues of [0, 1, 2]) for (const len of [0, 1, 3]) {
      if (out_ !== "text" && (errors !== "none" || issues !== 1 || len !== 1)) continue;
      out.push([out_, via, errors, issues, len]);
    }
    for (let i = 0; i < 12; i++) out.push(["bad", i]);
    return out;
  },
  async run(sx: any) {
    const good: any = { "~standard": { version: 1, vendor: "x", validate: (v: any) => ({ value: v }) } };
    if (sx.case[0] === "bad") {
      sx.cover("malformed");
      const s = sx.str("s", { len: 1, chars: CH });
      const fn: any = Object.assign(() => {}, good);
      const [schema, options, okay]: any = [[null, { placeholder: 0 }], [s, { placeholder: 0 }], [{}, { placeholder: 0 }], [{ "~standard": null }, { placeholder: 0 }], [{ "~standard": { validate: s } }, { placeholder: 0 }], [good, undefined], [good, {}], [good, [0]], [good, { placeholder: undefined }, true], [good, { placeholder: 0, metavar: "" }], [fn, { placeholder: 0 }, true], [good, Object.assign(Object.create(null), { placeholder: s }), true]][sx.case[1]];
      for (const make of [standardSchema, standardSchemaAsync] as any[]) {
        let threw: any, p: any;
        try { p = make(schema, options); } catch (e) { threw = e; }
        if (okay) sx.assert(threw === undefined && p.metavar === "VALUE" && sx.is(sx.eq(p.placeholder, options.placeholder)), "a sound schema is refused");
        else sx.assert(threw instanceof TypeError, "a malformed schema or option is taken");
      }
      return;
    }
    const [what, via, errors, count, len] = sx.case;
    const first = sx.str("first", { len: 1, chars: CH });
    const input = sx.str("input", { len, chars: CH });
    const msgs = Array.from({ length: count }, (_, i) => sx.str("m" + i, { len: i === 0 ? len : 1, chars: CH }));
    const at = new Date(86400000);
    const make = (t: any): any => what === "text" ? t : what === "number" ? t.length + 0.5 : what === "list" ? [t, t] : what === "object" ? { k: t } : what === "bare" ? Object.assign(Object.create(null), { k: t }) : what === "date" ? at : what === "null" ? null : { toString: () => t };
    let value: any;
    const boom = new Error("x");
    const issues = msgs.map((m) => ({ message: m }));
    const seen: any[] = [];
    const decide = (t: any) => {
      seen.push(t);
      if (t.length > 0 && sx.is(sx.eq(t[0], first))) { value = make(t); return { value }; }
      return { issues };
    };
    const validate = (t: any): any => {
      if (via === "sync") return decide(t);
      if (via === "async") return Promise.resolve().then(() => decide(t));
      if (via === "reject") return Promise.reject(boom);
      return { then: (y: any) => { y(decide(t)); } };
    };
    const mine = message`mine`;
    const calls: any[] = [];
    const options: any = { placeholder: 0, errors: errors === "none" ? undefined : { schemaError: errors === "text" ? mine : (i: any, t: any) => { calls.push([i, t]); return mine; } } };
    const schema: any = { "~standard": { version: 1, vendor: "x", validate } };
    const p: any = standardSchema(schema, options), q: any = standardSchemaAsync(schema, options);
    const ok = len > 0 && sx.is(sx.eq(input[0], first));
    const results: any[] = [];
    let threw: any;
    try { results.push(p.parse(input)); } catch (e) { threw = e; }
    if (via === "sync") sx.assert(threw === undefined, "reading a text throws");
    else { sx.cover("promise"); sx.assert(threw instanceof TypeError, "a validator that answers later is not refused by the synchronous parser"); }
    let rejected: any;
    try { results.push(await q.parse(input)); } catch (e) { rejected = e; }
    if (via === "reject") { sx.cover("rejected"); sx.assert(rejected === boom, "a validator's exception is lost"); return; }
    sx.assert(rejected === undefined, "reading a text throws");
    for (const t of seen) sx.assert(sx.eq(t, input), "the validator is asked about another text");
    sx.observe("ok", results[0].success);
    for (const r of results) {
      sx.assert(r.success === ok, "a text is accepted or refused otherwise than by the schema");
      if (ok) { sx.cover("accepted"); sx.assert(what === "text" ? sx.eq(r.value, value) : typeof r.value === typeof value && (r === results[results.length - 1] ? r.value === value || what === "number" : true), "the value is not the schema's"); continue; }
      sx.cover("refused");
      if (errors !== "none") sx.assert(r.error === mine, "the message given is not used");
      else sx.assert(sx.eq(r.error, message`${text(count > 0 ? msgs[0] : "Validation failed.")}`), "the schema's first message is not used");
    }
    if (errors === "call" && !ok) sx.assert(calls.length === results.length && calls.every(([i, t]: any) => i === issues && sx.is(sx.eq(t, input))), "the message is computed from something else than the issues and the text");
    if (ok) {
      const shown = p.format(value), later = q.format(value);
      const want = what === "text" || what === "fn" ? input : what === "number" ? String(len + 0.5) : what === "list" ? input + "," + input : what === "date" ? "1970-01-02T00:00:00.000Z" : what === "null" ? "null" : undefined;
      if (want !== undefined) sx.assert(sx.and(sx.eq(shown, want), sx.eq(later, want)), "a value is not shown as its text");
      else if (what === "object") sx.assert(sx.eq(JSON.parse(shown), { k: input }), "an object is not shown as JSON");
      const own = standardSchema(schema, { ...options, format: (x: any) => (x === value ? "own" : "?") } as any);
      sx.assert(own.format(value) === "own", "the formatter given is not used");
    }
  },
};
