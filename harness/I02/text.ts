import { createEnvContext } from "@repo/packages/env/src/index.ts";
import { fsHooks } from "../_lib/model_fs.ts";
import { readEnv } from "../_lib/dotenv.ts";

// texts: "@" is a free character of the case's alphabet, anything else stands for itself
const SHAPES: [string, string][] = [
  // whole lines of free text
  ...["", "@", "@@", "@@@", "@@@@"].map((s) => [s, "A=#'\"\n $"] as [string, string]),
  ["A=@@@", "ab#'\"\\ \n\t$`=\r"], ["A=@@@@", "a#'\" \n$`"], ["A='@@@@", "'#\\ \n$a"], ["A=\"@@@@", "\"\\nr$a\n#"], ["A=\"@@@@\"", "\"\\$`ab{"],
  ["A=a@@@", "# \t\n'\"a="], ["A=$@@@", "AB{}()` a_"], ["A=${@@@", "AB}_ $"], ["A=`@@@", "`a\nb$"], ["A=\"`@@@", "`\"\\a"],
  ["@@@A=1", "export #\n\r\ufeff"], ["export@@@", " \tA=\n1"], ["A=1@@@B=2", "\r\n #a'"], ["A@@@1", "b =\t_-\n"],
  ["A=1\nB=@@@", "$AB{}\"'"], ["B=$A\nA=@@\nC=$A@", "x\"' \n"], ["A='a'@@\nB=2", " #b\"'\n"], ["A=\"a\"@@\nB=2", " #b\"'\n"],
  ["# @@\nA=1", "\r\nA=#"], ["A=1\n@@@", "AB=2\n#"],
];
const DEEP: [string, string][] = [
  ...["@@@@@", "@@@@@@"].map((s) => [s, "A=#'\"\n $"] as [string, string]),
  ["A=@@@@@@", "a#'\" \n$"], ["A=\"@@@@@@", "\"\\n$a{}"], ["A=$@@@@@", "AB{}()a_"], ["A=`@@`$@@@@", "`A{()} "], ["A=1@@@@@B=2", "\r\n #a'="], ["A='@@'@@@\nB=@@", "'\"# \n$A"],
];
export default {
  name: "text",
  bounds: "21 (thorough: 29) shapes of .env text, whole files of 0-4 (6) free characters and 1-7 lines' worth of fixed text with 2-8 free characters from the notation's own; the real environment holds A, or not; substitution hook present or absent",
  assumptions: ["white space is space and tab, line ends CR and LF"],
  covers: ["assignments", "no assignment", "malformed", "reference"],
  cases(tier: string) {
    const out: any[] = [];
    const all = tier === "quick" ? SHAPES : [...SHAPES, ...DEEP];
    for (const [s, cs] of all) for (const real of [0, 1]) {
      if (real === 1 && !s.includes("$") && !cs.includes("$")) continue;
      out.push([s, cs, real]);
    }
    return out;
  },
  run(sx: any) {
    const [shape, cs, real] = sx.case;
    const n = [...shape].filter((c) => c === "@").length;
    const free = sx.str("s", { len: n, chars: cs });
    let text = "", k = 0;
    for (const c of shape) text += c === "@" ? free[k++] : c;
    const env = (key: string): string | undefined => {
      if (real === 1 && key.length === 1 && sx.is(sx.eq(key, "A"))) return "re";
      return undefined;
    };
    fsHooks.readFileSync = () => text;
    const cmds: string[] = [];
    let ctx: any, thrown: any;
    try {
      ctx = createEnvContext({ envFile: { paths: ["f.env"], substitute: (c: string) => { cmds.push(c); return "<" + c + ">"; } }, source: env });
    } catch (e: any) { thrown = e; }
    let refs = 0;
    const wantCmds: string[] = [];
    const want = readEnv(sx, text, (key, sofar) => {
      refs++;
      const r = env(key);
      if (r !== undefined) return r;
      for (let i = sofar.length - 1; i >= 0; i--) if (sofar[i][0].length === key.length && sx.is(sx.eq(sofar[i][0], key))) return sofar[i][1];
      return "";
    }, (c) => { wantCmds.push(c); return "<" + c + ">"; });
    if (refs > 0) sx.cover("reference");
    sx.observe("ok", thrown === undefined);
    if (want === undefined) {
      sx.cover("malformed");
      sx.assert(thrown !== undefined, "text that is no list of assignments is accepted");
      sx.assert(thrown instanceof SyntaxError, "malformed text does not give a syntax error");
      return;
    }
    sx.assert(thrown === undefined, "a list of assignments is refused");
    if (thrown !== undefined) return;
    sx.cover(want.length > 0 ? "assignments" : "no assignment");
    const keys: string[] = ["A", "B", "C", ...want.map((w) => w[0])];
    for (const key of keys) {
      let v: string | undefined = env(key);
      if (v === undefined) for (const [w, x] of want) if (w.length === key.length && sx.is(sx.eq(w, key))) v = x;
      const g = ctx.source(key);
      sx.assert((g === undefined) === (v === undefined), v === undefined ? "a variable that is not assigned has a value" : "an assigned variable has no value");
      if (g !== undefined && v !== undefined) sx.assert(sx.eq(g, v), "a variable has not the value assigned");
    }
    sx.assert(sx.eq(cmds, wantCmds), "the substitution hook is not called once for each command, with its text");
  },
};
