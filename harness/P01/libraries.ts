import { object } from "@optique/core/constructs";
import { option, flag } from "@optique/core/primitives";
import { map, multiple, optional } from "@optique/core/modifiers";
import { parseAsync } from "@optique/core/parser";
import { choice, integer, float, string } from "@optique/core/valueparser";
import { prompt as inquirer, Separator } from "@repo/packages/inquirer/src/index.ts";
import { prompt as clack } from "@repo/packages/clack/src/index.ts";
import { CANCEL, script } from "../_lib/model_prompts.ts";
const o: any = option;
const CH: any = [[0x21, 0x7e]];
// prompt kind -> the library's function
const KINDS: [string, string, string][] = [
  ...["confirm", "number", "input", "password", "editor", "select", "rawlist", "expand", "checkbox"].map((k): [string, string, string] => ["inquirer", k, k]),
  ...["text", "password", "confirm", "select", "multiselect"].map((k): [string, string, string] => ["clack", k, k]), ["clack", "number", "text"],
];
export default {
  name: "libraries",
  bounds: "every prompt kind of the Inquirer.js and Clack integrations, in place of the library or through its prompter override; answers of 0-4 characters (every character unknown), integers, Booleans and lists; answered, cancelled, failing; Clack numbers: one or two answers of 0-4 characters of digits, signs, dots, spaces and letters with unknown minimum and maximum",
  assumptions: ["the libraries themselves are stand-ins which ask again until the validator they were given is content"],
  covers: ["answered", "cancelled", "failed", "refused", "second answer"],
  cases(tier: string) {
    const out: any[] = [];
    for (let k = 0; k < KINDS.length; k++) for (const over of [false, true]) for (const end of ["answer", "cancel", "fail"]) for (const extra of [false, true]) {
      const lens = KINDS[k][0] === "clack" && KINDS[k][1] === "number" && end === "answer" ? (over ? [[0], [2]] : tier === "quick" ? [[0], [2], [3], [0, 2]] : [[0], [1], [2], [3], [4], [0, 2], [2, 2], [3, 1]]) : [[2]];
      for (const len of lens) out.push([k, over, end, extra, len]);
    }
    return out;
  },
  async run(sx: any) {
    const [k, over, end, extra, lens] = sx.case;
    const [lib, kind, fn] = KINDS[k];
    const prompt: any = lib === "clack" ? clack : inquirer;
    const msg = sx.str("message", { len: 2, chars: CH });
    const numeric = kind === "number", many = kind === "checkbox" || kind === "multiselect", yes = kind === "confirm";
    const typed = lib === "clack" && numeric;
    const texts: any[] = typed ? lens.map((n: number, i: number) => sx.str("a" + i, { len: n, chars: "0123456789.-+ a" })) : [];
    const one: any = yes ? sx.bool("a") : numeric ? sx.int("a", -999, 999) : many ? [sx.str("a0", { len: 1, chars: CH }), sx.str("a1", { len: 1, chars: CH })] : sx.str("a", { max: 3, chars: CH });
    const dflt: any = kind === "password" ? undefined : yes ? sx.bool("d") : numeric ? sx.int("d", -99, 99) : many ? undefined : sx.str("d", { len: 1, chars: CH });
    const min = typed && extra ? sx.int("min", -50, 50) : undefined, max = typed && extra ? sx.int("max", -50, 50) : undefined;
    const c1 = sx.str("c1", { len: 1, chars: CH }), c2 = sx.str("c2", { len: 1, chars: CH });
    const validate = typed ? undefined : () => undefined;
    const config: any = { type: kind, message: msg };
    if (extra && dflt !== undefined) config[lib === "clack" ? "initialValue" : "default"] = dflt;
    if (typed && extra) { config.min = min; config.max = max; }
    else if (extra && numeric) { config.min = -5; config.max = 5; config.step = 2; }
    if (extra && /input|text|password|editor/.test(kind)) config.validate = validate;
    const sep: any = new (Separator as any)("--");
    const lists = /select|rawlist|expand|checkbox/.test(kind);
    if (lists) config[lib === "clack" ? "options" : "choices"] = kind === "expand" ? [{ value: c1, key: "a" }, { value: c2, key: "b", name: "B" }] : [c1, { value: c2, [lib === "clack" ? "label" : "name"]: "B", disabled: extra ? "no" : undefined }, ...(lib === "inquirer" && kind !== "rawlist" ? [sep] : [])];
    const boom: any = lib === "inquirer" && end === "cancel" ? Object.assign(new Error("x"), { name: "ExitPromptError" }) : end === "fail" ? new Error("boom") : undefined;
    script.calls = [];
    script.error = boom;
    script.answers = end === "cancel" ? [CANCEL] : typed ? texts : [one];
    const blank = end === "answer" && numeric && lib === "inquirer" && extra;
    if (blank) script.answers = [undefined];
    if (over) config.prompter = async () => { if (boom) throw boom; return script.answers[0]; };
    const inner: any = yes ? map(optional(flag("-f")), (v: any) => v === true) : numeric ? o("-f", float()) : many ? multiple(o("-f", string())) : o("-f", string());
    const p = prompt(inner, config);
    // what help shows as the default is the prompt's
    const doc = p.getDocFragments({ kind: "available", state: p.initialState }), ref = inner.getDocFragments({ kind: "available", state: inner.initialState }, extra ? dflt : undefined);
    sx.assert(sx.eq(doc, ref), "help does not show the prompt's default as the field's");
    let r: any, threw: any;
    try { r = await parseAsync(object({ f: p }) as any, []); } catch (e) { threw = e; }
    sx.observe("ok", r?.success);
    sx.assert(script.calls.length === (over ? 0 : 1), "the library is not called exactly once (or in spite of the override)");
    if (!over) {
      const [name, got] = script.calls[0];
      sx.assert(name === fn, "another kind of prompt is shown");
      sx.assert(sx.eq(got.message, msg), "another question is asked");
      const d = lib === "clack" ? got.initialValue : got.default;
      if (extra && dflt !== undefined) sx.assert(typed ? sx.eq(d, String(dflt)) : sx.eq(d, dflt), "the prompt's default is not handed to the library");
      else sx.assert(d === undefined, "a default is handed to the library although there is none");
      if (numeric && !typed && extra) sx.assert(got.min === -5 && got.max === 5 && got.step === 2, "a number prompt loses its limits");
      if (config.validate) sx.assert(got.validate === validate, "a prompt loses its validator");
      if (lists) {
        const l = lib === "clack" ? got.options : got.choices, label = lib === "clack" ? "label" : "name";
        sx.assert(l.length === config[lib === "clack" ? "options" : "choices"].length, "a choice is lost");
        sx.assert(sx.and(sx.eq(l[0].value, c1), sx.eq(l[1].value, c2), l[1][label] === "B"), "a choice shown is not the one configured");
        if (kind !== "expand") sx.assert(sx.and(sx.eq(l[0][label], c1), l[1].disabled === (extra ? "no" : undefined)), "a choice shown is not the one configured");
        if (l.length > 2) sx.assert(l[2] === sep, "a separator is not passed on");
      }
    }
    if (end === "fail") { sx.cover("failed"); sx.assert(threw === boom, "an exception of the library does not reach the caller"); return; }
    sx.assert(threw === undefined, "an expected outcome of a prompt is thrown");
    if (end === "cancel") { sx.cover("cancelled"); sx.assert(!r.success, "a cancelled prompt gives a value"); return; }
    if (blank) { sx.assert(!r.success, "a number prompt without an answer gives a value"); return; }
    if (typed) {
      // the library asks again until the number is one, within the limits
      let i = 0;
      for (; i < texts.length; i++) {
        const t = texts[i];
        const number = sx.is(sx.test(/^ *[-+]?([0-9]+[.]?[0-9]*|[.][0-9]+) *$/, t));
        if (over && number) break;
        if (over) continue;
        if (number && (min === undefined || sx.is(Number(t) >= min) && sx.is(Number(t) <= max))) break;
      }
      if (i === texts.length || over && i > 0) { sx.cover("refused"); sx.assert(!r.success, "an answer that is not a number within the limits gives a value"); return; }
      if (i > 0) sx.cover("second answer");
      sx.cover("answered");
      sx.assert(r.success, "a number within the limits is refused");
      sx.assert(sx.eq(r.value.f, Number(texts[i])), "the number typed is not the field's value");
      return;
    }
    sx.cover("answered");
    sx.assert(r.success, "an answered prompt does not complete the command line");
    sx.assert(sx.eq(r.value.f, one), "the answer is not the field's value");
  },
};
