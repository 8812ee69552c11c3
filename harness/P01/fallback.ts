import { mix } from "../_lib/mix.ts";
import { concat, conditional, group, merge, object, or, seq, tuple } from "@optique/core/constructs";
import { argument, command, constant, fail, flag, option } from "@optique/core/primitives";
import { map, multiple, optional, withDefault } from "@optique/core/modifiers";
import { parseAsync } from "@optique/core/parser";
import { runWith } from "@optique/core/facade";
import { integer, string } from "@optique/core/valueparser";
import { message } from "@optique/core/message";
import { bindEnv, createEnvContext } from "@repo/packages/env/src/index.ts";
import { bindConfig, createConfigContext } from "@repo/packages/config/src/index.ts";
import { createPromptAdapter } from "@repo/packages/prompt/src/index.ts";
const o: any = option;
const CH: any = [[0x21, 0x2c], [0x2e, 0x7e]];
const s = () => optional(o("-s", string()));
// how the two prompted fields sit in the grammar: tokens before, which are in
// the chosen part, how to read them
const SHAPE: Record<string, { make: (f: any, g: any) => any; pre?: string[]; has: "fg" | "f" | "g" | "gf"; f?: (v: any) => any; g?: (v: any) => any }> = {
  object: { make: (f, g) => object({ f, s: s(), g }), has: "fg", f: (v) => v.f, g: (v) => v.g },
  tuple: { make: (f, g) => tuple([s(), f, g]), has: "fg", f: (v) => v[1], g: (v) => v[2] },
  merge: { make: (f, g) => merge(object({ f }), object({ s: s(), g })), has: "fg", f: (v) => v.f, g: (v) => v.g },
  concat: { make: (f, g) => concat(tuple([f]), tuple([g, s()])), has: "fg", f: (v) => v[0], g: (v) => v[1] },
  nested: { make: (f, g) => object({ s: s(), a: object({ f }), b: group("G", object({ g })) }), has: "fg", f: (v) => v.a.f, g: (v) => v.b.g },
  intuple: { make: (f, g) => object({ s: s(), t: tuple([f, g]) }), has: "fg", f: (v) => v.t[0], g: (v) => v.t[1] },
  mapped: { make: (f, g) => object({ s: s(), f: map(f, (v: any) => [v]), g: group("G", g) }), has: "fg", f: (v) => v.f[0], g: (v) => v.g },
  command: { make: (f, g) => command("c", object({ f, g, s: s() })), pre: ["c"], has: "fg", f: (v) => v.f, g: (v) => v.g },
  first: { make: (f, g) => or(command("c", object({ f, s: s() })), command("d", object({ g, s: s() }))), pre: ["c"], has: "f", f: (v) => v.f },
  second: { make: (f, g) => or(command("c", object({ f, s: s() })), command("d", object({ g, s: s() }))), pre: ["d"], has: "g", g: (v) => v.g },
  parent: { make: (f, g) => object({ f, s: s(), c: or(command("c", object({ g })), command("d", constant(0))) }), pre: ["c"], has: "fg", f: (v) => v.f, g: (v) => v.c.g },
  plain: { make: (f, g) => object({ f, s: s(), c: or(command("c", object({ g })), command("d", constant(0))) }), pre: ["d"], has: "f", f: (v) => v.f },
  branch: { make: (f, g) => conditional(o("-k", string()), { a: object({ f, s: s() }), b: object({ g, s: s() }) } as any), pre: ["-k", "a"], has: "f", f: (v) => v[1].f },
  branches: { make: (f, g) => object({ k: conditional(o("-k", string()), { a: object({ f }), b: object({ x: s() }) } as any), g }), pre: ["-k", "a"], has: "fg", f: (v) => v.k[1].f, g: (v) => v.g },
  seq: { make: (f, g) => seq(object({ f, s: s() }), command("c", object({ g }))), pre: [], has: "fg", f: (v) => v[0].f, g: (v) => v[1].g },
};
type Inner = "option" | "flag" | "optional" | "default" | "multiple" | "map" | "fail" | "integer" | "argument" | "env" | "config" | "envdefault" | "envconfig";
const INNERS: Inner[] = ["option", "flag", "optional", "default", "multiple", "map", "fail", "integer", "argument", "env", "config", "envdefault", "envconfig"];
export default {
  name: "fallback",
  bounds: "two prompted fields around 13 kinds of inner parser in 15 places (commands, branches and nestings among them), each given on the command line, by a source, or not at all; values of 0-2 characters (every character unknown) or integers; parseAsync() and runners with a one-pass or a two-pass context; prompts that answer, are refused, or throw; a refused command line, help and version requests",
  assumptions: ["the prompt adapter answers after a turn of the event loop"],
  covers: ["prompted", "cli", "source", "refused", "threw", "bad command line", "help"],
  cases(tier: string) {
    const out: any[] = [];
    let n = 0;
    for (const shape of Object.keys(SHAPE)) for (const inner of INNERS) for (const given of ["none", "f", "fg"]) for (const ending of ["ok", "refuse", "throw", "bad", "help"]) for (const mode of ["parse", "run", "one", "two"]) {
      if ((ending === "help" || /env|config/.test(inner)) && mode === "parse") continue;
      if (given === "f" && inner === "fail") continue;
      const m = n++;
      if (tier === "quick" && mix(m) % 11 !== 0 && !(ending === "ok" && mix(m) % 3 === 0)) continue;
      out.push([shape, inner, given, ending, mode, mix(m + 7) % 3]);
    }
    return out;
  },
  async run(sx: any) {
    const [shape, inner, given, ending, mode, len] = sx.case as [string, Inner, string, string, string, number];
    const S = SHAPE[shape];
    const asked: string[] = [];
    const boom = new Error("prompt");
    const prompt: any = createPromptAdapter<any>({
      async execute(c: any) {
        asked.push(c.who);
        await null;
        if (ending === "throw") throw boom;
        if (ending === "refuse") return { success: false, error: message`refused` } as any;
        return { success: true, value: c.value } as any;
      },
    });
    const int = inner === "integer";
    const keys: string[] = [];
    // a value a source supplies
    const src = inner.startsWith("env") || inner === "config";
    const set = src && inner !== "envdefault" && sx.flag("set");
    const fromSource = src ? sx.str("source", { len: 2 - len, chars: CH }) : undefined;
    const env = createEnvContext({ prefix: "P_", source: (k: string) => { keys.push(k); return inner.startsWith("env") && set && inner !== "envconfig" && sx.is(sx.eq(k, "P_F")) ? fromSource : undefined; } });
    const config: any = createConfigContext({ schema: { "~standard": { version: 1, vendor: "x", validate: (v: any) => ({ value: v }) } } as any });
    const plain: any = { option: () => o("-f", "--ff", string()), flag: () => flag("-f"), optional: () => optional(o("-f", string())), default: () => withDefault(o("-f", string()), "D"), multiple: () => multiple(o("-f", string())),
      map: () => map(o("-f", string()), (v: any) => [v]), fail: () => fail(), integer: () => o("-f", integer()), argument: () => argument(string()),
      env: () => bindEnv(o("-f", string()), { context: env, key: "F", parser: string() } as any),
      envdefault: () => bindEnv(o("-f", string()), { context: env, key: "F", parser: string(), default: fromSource } as any),
      config: () => bindConfig(o("-f", string()), { context: config, key: "ck" } as any),
      envconfig: () => bindEnv(bindConfig(o("-f", string()), { context: config, key: "ck" } as any), { context: env, key: "F", parser: string() } as any) };
    const answer = int ? sx.int("answer", -9, 9) : inner === "multiple" ? [sx.str("answer", { len, chars: CH })] : inner === "flag" ? true : inner === "map" ? [sx.str("answer", { len, chars: CH })] : sx.str("answer", { len, chars: CH });
    const answerG = sx.str("answerG", { len: 2 - len, chars: CH });
    const f = prompt(plain[inner](), { who: "f", value: answer });
    const g = prompt(o("-g", string()), { who: "g", value: answerG });
    const parser = S.make(f, g);
    const cliF = given !== "none" && S.has.includes("f") && inner !== "fail", cliG = given === "fg" && S.has.includes("g");
    const text = inner === "flag" ? undefined : int ? sx.str("f", { len: 1 + len % 2, chars: "0123456789" }) : sx.str("f", { len: Math.max(1, len), chars: CH });
    if (int && cliF) sx.assume(!sx.is(text.length > 1 && text[0] === "0"));
    const textG = sx.str("g", { len: 1 + len % 2, chars: CH });
    // a word on the command line may not read as the command's name
    const words = inner === "flag" ? ["-f"] : inner === "argument" ? [text] : ["-f", text];
    const aF = cliF ? words : [], aG = cliG ? ["-g", textG] : [];
    const args: any[] = shape === "seq" ? [...aF, "c", ...aG] : shape === "parent" ? [...aF, ...S.pre!, ...aG] : [...(S.pre ?? []), ...aF, ...aG];
    if (inner === "argument" && cliF && /seq|parent|plain/.test(shape)) sx.assume(!sx.is(sx.eq(text, "c")) && !sx.is(sx.eq(text, "d")));
    if (ending === "bad") args.push("--zz");
    if (ending === "help") args.push(sx.flag("version") ? "--version" : "--help");
    const contexts: any[] = [];
    const passes: any[] = [];
    if (inner.startsWith("env")) contexts.push(env);
    if (inner === "config" || inner === "envconfig") contexts.push(config);
    if (mode === "one" || mode === "two") contexts.push({ id: Symbol("x"), phase: mode === "one" ? "single-pass" : "two-pass", getAnnotations: (r: any) => { passes.push([r?.phase, asked.length]); return mode === "two" && r?.phase === "phase1" ? {} : {}; } });
    let value: any, ok = false, threw: any, code = -1, out = 0;
    try {
      if (mode === "parse") { const r: any = await parseAsync(parser, args); ok = r.success; value = r.value; }
      else {
        let ended = false;
        value = await runWith(parser, "prog", contexts, { args, help: { option: true, onShow: () => { ended = true; } }, version: { option: true, value: "1", onShow: () => { ended = true; } }, stdout: () => { out++; }, stderr: () => {}, onError: (c: number) => { ended = true; code = c; return null; }, contextOptions: { load: () => ({ config: set ? { ck: fromSource } : {}, meta: undefined }) } } as any);
        ok = !ended;
      }
    } catch (e) { threw = e; }
    sx.observe("asked", asked.join());
    sx.observe("value", value);
    const two = mode === "two" || contexts.includes(config);
    if (ending === "bad" && two) {
      // the first of two passes looks for what it can before it refuses
      sx.assert(!ok && threw === undefined && code === 1, "a command line that has an unknown option is accepted");
      return;
    }
    if (ending === "bad" || ending === "help") {
      sx.cover(ending === "bad" ? "bad command line" : "help");
      sx.assert(asked.length === 0, "the user is asked although the command line " + (ending === "bad" ? "is refused" : "asks for help or the version"));
      sx.assert(!ok && threw === undefined, "a command line that " + (ending === "bad" ? "has an unknown option is accepted" : "asks for help or the version is run"));
      return;
    }
    const has = inner === "envdefault" || set;
    const needF = S.has.includes("f") && !cliF && !has, needG = S.has.includes("g") && !cliG;
    const want = [...S.has].filter((x) => x === "f" ? needF : needG);
    // with contexts of two passes, a field bound to a configuration waits for
    // the second pass and any other is asked for in both
    const first = two ? want.filter((x) => x === "g" || !contexts.includes(config)) : [];
    sx.assert(passes.every((p) => p[1] === 0 || p[0] === "phase2"), "a context is consulted for the first time after the user was asked");
    if (want.length > 0 && ending === "throw") { sx.cover("threw"); sx.assert(threw === boom, "an exception thrown by a prompt does not reach the caller"); return; }
    if (want.length > 0 && ending === "refuse") {
      sx.cover("refused");
      sx.assert(threw === undefined && !ok, "a refused prompt does not fail the command line");
      if (mode !== "parse") sx.assert(code === 1, "a refused prompt does not end the program with exit code 1");
      return;
    }
    // parser order is by priority first: commands, arguments, options, nothing
    const order = (l: string[]) => shape === "parent" || inner === "fail" || inner === "argument" ? [...l].sort().join() : l.join();
    sx.assert(order(asked) === order([...first, ...want]), "the fields that are asked for are not those without a value, each as often as it should be and in order");
    sx.assert(threw === undefined && ok, "a command line completed by prompts is not accepted");
    sx.cover(want.length > 0 ? "prompted" : "cli");
    if (S.f) {
      const v = S.f(value);
      if (cliF) sx.assert(sx.eq(v, inner === "flag" ? true : inner === "multiple" || inner === "map" ? [text] : int ? Number(text) : text), "the value on the command line is not used");
      else if (has) { sx.cover("source"); sx.assert(sx.eq(v, fromSource), "the value of a source is not used"); }
      else sx.assert(sx.eq(v, answer), "the answer to the prompt is not the field's value");
    }
    if (S.g) sx.assert(sx.eq(S.g(value), cliG ? textG : answerG), "the second field's value is not the one given or answered");
  },
};
