import { createEnvContext } from "@repo/packages/env/src/index.ts";
import { fsHooks } from "../_lib/model_fs.ts";

// files written from what they are meant to say, in every style
type V = [style: "bare" | "single" | "double", parts: any[]];
const FREE: Record<string, any> = {
  single: "ab\\\"#$ {}`\n\t=", double: "ab\\\"#$ '`\n\t\r", bare: "ab\\\"'#={} -",
};
// part kinds: number n = n free characters, ["v", name] = $name, ["b", name] = ${name}, ["c", text] = $(text), ["t", text] = `text`
const PLANS: [string, [string, V][]][] = [
  ["one", [["A", ["single", [3]]]]],
  ["one", [["A", ["double", [3]]]]],
  ["one", [["A", ["bare", [4]]]]],
  ["empty", [["A", ["single", []]], ["B", ["double", []]], ["C", ["bare", []]]]],
  ["refs", [["A", ["bare", [1]]], ["B", ["double", [1, ["b", "A"], 1]]], ["C", ["bare", [["v", "B"], ["v", "A"]]]]]],
  ["refs", [["A", ["single", [["v", "B"], 1]]], ["B", ["bare", [["b", "A"], 1]]]]],
  ["unset", [["A", ["double", [["v", "Z"], ["b", "B"]]]], ["B", ["bare", [["b", "Z"], 1]]], ["C", ["double", [["b", "B"]]]]]],
  ["twice", [["A", ["bare", [1]]], ["B", ["bare", [["b", "A"]]]], ["A", ["double", [1, ["b", "A"]]]], ["C", ["bare", [["b", "A"], 1]]]]],
  ["commands", [["A", ["double", [1, ["c", "x y"], ["t", "z"]]]], ["B", ["bare", [["c", "w"], ["b", "A"], 1]]], ["C", ["single", [["c", "no"]]]]]],
];
const write = (sx: any, style: string, parts: any[], free: string[]): string => {
  let out = "", k = 0;
  parts.forEach((p, at) => {
    if (typeof p === "number") {
      const s = free[k++];
      for (let i = 0; i < s.length; i++) {
        const c = s[i];
        if (style === "double") {
          if (sx.is(sx.charIn(c, "\\\"$`"))) out += "\\" + c;
          else if (sx.is(c === "\n") && sx.flag("nl")) out += "\\n";
          else if (sx.is(c === "\t") && sx.flag("tab")) out += "\\t";
          else if (sx.is(c === "\r")) out += "\\r";
          else out += c;
        } else out += c;
      }
      return;
    }
    const [kind, x] = p;
    if (kind === "v" && style !== "single") {
      // a name ends where a character that cannot belong to it follows
      const next = parts[at + 1];
      if (typeof next === "number" && next > 0) sx.assume(!sx.is(sx.charIn(free[k][0], "ab")));
    }
    out += kind === "v" ? "$" + x : kind === "b" ? "${" + x + "}" : kind === "c" ? "$(" + x + ")" : "`" + x + "`";
  });
  return out;
};
export default {
  name: "gen",
  bounds: "9 plans of 1-4 assignments (literal text of 1-4 symbolic characters, references in both forms, command substitutions) in the three quoting styles, each escape spelt both ways; spread over 1-2 files with another file missing; export, spaces, comments, blank lines and CRLF line ends chosen; every variable also set, empty or unset in the real environment",
  assumptions: ["text is written in a style that can express it"],
  covers: ["read", "real value wins", "missing file", "later file wins", "prefix"],
  cases(tier: string) {
    const out: any[] = [];
    for (let p = 0; p < PLANS.length; p++) for (let deco = 0; deco < 4; deco++) for (const split of PLANS[p][1].length > 1 ? [0, 1, 2] : [0]) {
      if (split >= PLANS[p][1].length) continue;
      if (tier === "quick" && deco > 1 && split > 0) continue;
      out.push([p, deco, split]);
    }
    return out;
  },
  run(sx: any) {
    const [pi, deco, split] = sx.case;
    const plan = PLANS[pi][1];
    const texts: string[] = ["", ""];
    const said: [string, any[], string[], string][] = [];
    const eol = deco === 3 ? "\r\n" : "\n";
    plan.forEach(([key, [style, parts]], j) => {
      const free: string[] = [];
      parts.forEach((p, m) => {
        if (typeof p !== "number") return;
        const s = sx.str(`s${j}_${m}`, { len: p, chars: FREE[style] });
        if (style === "bare") {
          // what can be written without quotation marks
          if (m === 0) sx.assume(sx.not(sx.charIn(s[0], "'\"# ")));
          else sx.assume(sx.not(s[0] === " "));
          sx.assume(sx.not(s[s.length - 1] === " "));
          for (let i = 1; i < s.length; i++) sx.assume(sx.not(sx.and(s[i] === "#", s[i - 1] === " ")));
        }
        free.push(s);
      });
      said.push([key, parts, free, style]);
      const v = write(sx, style, parts, free), q = style === "single" ? "'" : style === "double" ? '"' : "";
      const line = (deco === 1 ? "export " : deco === 2 ? "  export \t" : "") + key + (deco === 2 ? " =\t" : "=") + q + v + q + (deco === 1 ? " # c='x\"" : deco === 2 ? " \t" : deco === 3 && q ? "#c" : "");
      const f = split > 0 && j >= split ? 1 : 0;
      texts[f] += (deco === 2 ? "# x=1\n\n \t\n" : "") + line + (j === plan.length - 1 && deco === 0 ? "" : eol);
    });
    if (deco === 2) texts[0] = "\ufeff" + texts[0];
    const real: Record<string, string> = {};
    for (const k of ["A", "B", "C", "Z"]) {
      if (!plan.some(([x, v]) => x === k || v[1].some((p: any) => p[1] === k))) continue;
      const how = sx.pick("real" + k, ["unset", "unset", "set", "empty"].slice(1));
      if (how === "set") real["P_" + k] = real[k] = "r" + k; else if (how === "empty") real["P_" + k] = real[k] = "";
    }
    const env = (k: string): string | undefined => Object.prototype.hasOwnProperty.call(real, k) ? real[k] : undefined;
    const opened: string[] = [];
    fsHooks.readFileSync = (p: string) => {
      const f = p.slice(p.lastIndexOf("/") + 1);
      opened.push(f);
      if (f === "one") return texts[0];
      if (f === "two" && split > 0) return texts[1];
      throw Object.assign(new Error("missing"), { code: "ENOENT" });
    };
    const cmds: string[] = [];
    const ctx: any = createEnvContext({ envFile: { paths: ["none", "one", "two"], substitute: (c: string) => { cmds.push(c); return c === "w" ? undefined : "<" + c + ">"; } }, source: env, prefix: "P_" });
    sx.cover("missing file");
    sx.assert(opened.length === 3 && opened[0] === "none" && opened[1] === "one" && opened[2] === "two", "the files are not read once each, in order");
    // what was said, in order
    const vals: Record<string, string> = {};
    const wantCmds: string[] = [];
    for (const [key, parts, free, style] of said) {
      let v = "", k = 0;
      for (const p of parts) {
        if (typeof p === "number") { v += free[k++]; continue; }
        const [kind, x] = p;
        if (style === "single") { v += kind === "v" ? "$" + x : kind === "b" ? "${" + x + "}" : kind === "c" ? "$(" + x + ")" : "`" + x + "`"; continue; }
        if (kind === "c" || kind === "t") { wantCmds.push(x); v += x === "w" ? "" : "<" + x + ">"; }
        else v += env(x) ?? vals[x] ?? "";
      }
      if (vals[key] !== undefined && split > 0) sx.cover("later file wins");
      vals[key] = v;
    }
    sx.cover("read");
    sx.assert(cmds.length === wantCmds.length && cmds.every((c, i) => c === wantCmds[i]), "the substitution hook is not called once for each command, with its text");
    for (const k of ["A", "B", "C", "Z"]) {
      const e = env(k), g = ctx.source(k);
      if (e !== undefined) { sx.cover("real value wins"); sx.assert(g === e, "a real environment variable does not win over the file"); continue; }
      sx.assert((g === undefined) === (vals[k] === undefined), "a variable is set although it was not assigned, or the reverse");
      if (g !== undefined && vals[k] !== undefined) sx.assert(sx.eq(g, vals[k]), "a variable has not the value written");
    }
    const data: any = Object.getOwnPropertySymbols(ctx.getAnnotations()).map((s) => ctx.getAnnotations()[s])[0];
    sx.cover("prefix");
    sx.assert(data.prefix === "P_" && data.source("A") === ctx.source("A"), "the context does not hand out the source and prefix it was given");
  },
};
