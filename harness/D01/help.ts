import { concat, group, longestMatch, merge, object, or, seq, tuple } from "@optique/core/constructs";
import { argument, command, constant, flag, option } from "@optique/core/primitives";
import { map, multiple, optional, withDefault } from "@optique/core/modifiers";
import { choice, integer, string } from "@optique/core/valueparser";
import { formatUsage } from "@optique/core/usage";
import { getDocPage, getDocPageAsync } from "@optique/core/parser";
import { message } from "@optique/core/message";

const d = (s: string, more = {}): any => ({ description: message`${{ type: "text", text: s } as any}`, ...more });
// the commands: "add" (with its own texts), "rm" also "del" (with commands "al" and "on"), "hi" hidden
const add = () => object("Deep", { n: withDefault(option("-n", integer(), d("num")), 3), c: withDefault(option("-c", "--ch", choice(["p", "q"]), d("chosen")), "p"), x: optional(argument(string(), d("the x"))), s: option("--sec", d("secret", { hidden: true })) });
const rm = () => or(command("al", object({ f: optional(flag("-f", d("force"))), r: group("Rare", object({ q: option("-q", d("quick")) })) }), d("rm all")), command("on", constant(1), d("rm one")));
const cmds = () => or(command("add", add(), { brief: message`Add it`, description: message`Adds long`, footer: message`bye` }), command("rm", rm(), d("Remove", { aliases: ["del"] })), command("hi", object({ z: option("-z", d("zed")) }), d("hidden", { hidden: true })));
const glob = () => option("-g", "--gl", d("global"));
type Node = { entries: [string | undefined, string, string][]; cmds: Record<string, string>; opts: Record<string, ((v: string, sx: any) => boolean) | null>; args: number; texts?: [string | undefined, string | undefined, string | undefined]; usage: string };
const isInt = (v: string, sx: any) => sx.is(sx.test(v, /^-?\d+$/));
const NODES: Record<string, Node> = {
  "": { entries: [[undefined, "add", "Add it"], [undefined, "rm", "Remove"]], cmds: { add: "add", rm: "rm", del: "rm", hi: "hi" }, opts: {}, args: 0, usage: "" },
  add: { entries: [["Deep", "-n INTEGER", "num [\"3\"]"], ["Deep", "-c/--ch TYPE", "chosen"], ["Deep", "STRING", "the x"]], cmds: {}, opts: { "-n": isInt, "-c": (v, sx) => sx.is(sx.or(sx.eq(v, "p"), sx.eq(v, "q"))), "--ch": (v, sx) => sx.is(sx.or(sx.eq(v, "p"), sx.eq(v, "q"))), "--sec": null }, args: 1, texts: ["Add it", "Adds long", "bye"], usage: "add" },
  rm: { entries: [[undefined, "al", "rm all"], [undefined, "on", "rm one"]], cmds: { al: "rm al", on: "rm on" }, opts: {}, args: 0, texts: [undefined, "Remove", undefined], usage: "rm" },
  "rm al": { entries: [[undefined, "-f", "force"], ["Rare", "-q", "quick"]], cmds: {}, opts: { "-f": null, "-q": null }, args: 0, texts: [undefined, "rm all", undefined], usage: "rm al" },
  "rm on": { entries: [], cmds: {}, opts: {}, args: 0, texts: [undefined, "rm one", undefined], usage: "rm on" },
  hi: { entries: [[undefined, "-z", "zed"]], cmds: {}, opts: { "-z": null }, args: 0, texts: [undefined, "hidden", undefined], usage: "hi" },
};
/** contexts: the parser, whether it has the global option (and its section), whether the command's own texts are the page's, whether the usage is narrowed to the command */
const CTX: Record<string, [() => any, boolean, string | undefined, boolean, boolean]> = {
  or: [() => cmds(), false, undefined, true, true],
  map: [() => map(cmds(), (x: any) => [x]), false, undefined, true, true],
  optional: [() => optional(cmds()), false, undefined, true, false],
  withDefault: [() => withDefault(cmds(), {} as any), false, undefined, true, false],
  group: [() => group("Cmds", cmds()), false, undefined, true, true],
  object: [() => object({ g: glob(), c: cmds() }), true, undefined, false, true],
  objectLast: [() => object({ c: cmds(), g: glob() }), true, undefined, false, true],
  optionalField: [() => object({ c: optional(cmds()), g: glob() }), true, undefined, false, false],
  merge: [() => merge(object("Glob", { g: glob() }), object({ c: cmds() })), true, "Glob", false, true],
  mergeGroup: [() => merge(object({ c: map(cmds(), (x: any) => [x]) }), group("Glob", object({ g: glob() }))), true, "Glob", false, true],
  tuple: [() => tuple([glob(), cmds()]), true, undefined, false, true],
  groupField: [() => object({ c: group("Cmds", cmds()), g: glob() }), true, undefined, false, true],
};
const flat = (m: any): string => m === undefined ? undefined as any : m.map((t: any) => t.type === "text" ? t.text : t.type === "value" ? JSON.stringify(t.value) : JSON.stringify(t)).join("");
export default {
  name: "help",
  bounds: "a program with commands, an alias, nested and hidden commands in 12 arrangements with and without a global option; every beginning of a command line of up to 2 (thorough: 3) words of up to 3 symbolic characters, also after some chosen words; synchronous and asynchronous",
  assumptions: ["a word is not --", "words have no = sign"],
  covers: ["root", "command", "nested command", "hidden command", "alias", "option value", "stopped"],
  cases(tier: string) {
    const out: any[] = [];
    for (const c of Object.keys(CTX)) {
      for (let n = 0; n <= (tier === "quick" ? 2 : 3); n++) out.push([c, [], Array(n).fill(tier === "quick" ? 4 - n : 3).map((m: number, i: number) => i === 0 ? 3 : m)]);
      for (const pre of tier === "quick" ? [["add", "-n"], ["rm"]] : [["add", "-n"], ["add", "--ch"], ["rm", "al"], ["-g", "del"], ["hi"]]) out.push([c, pre, tier === "quick" ? [2, 1] : [3, 2]]);
    }
    return out;
  },
  async run(sx: any) {
    const [ck, pre, lens] = sx.case;
    const n = pre.length + lens.length;
    const [make, hasGlob, globSec, texts, narrowed] = CTX[ck];
    const words: string[] = [...pre];
    for (let i = 0; i < lens.length; i++) {
      const w = sx.str("w" + i, { max: lens[i], chars: [["a", "z"], "-", ["0", "9"]] });
      sx.assume(sx.not(sx.eq(w, "--")));
      words.push(w);
    }
    // what the words mean
    let at = "", gseen = false, i = 0;
    const seen = new Set<string>();
    let args = 0;
    for (; i < n; i++) {
      const w = words[i], N = NODES[at];
      const cmd = Object.keys(N.cmds).find((c) => sx.is(sx.eq(w, c)));
      if (cmd !== undefined) { if (cmd === "del") sx.cover("alias"); at = N.cmds[cmd]; seen.clear(); args = 0; continue; }
      if (hasGlob && (sx.is(sx.eq(w, "-g")) || sx.is(sx.eq(w, "--gl")))) { if (gseen) break; gseen = true; continue; }
      const opt = Object.keys(N.opts).find((c) => sx.is(sx.eq(w, c)));
      if (opt !== undefined) {
        if (N.opts[opt] === null) { if (seen.has(opt)) break; seen.add(opt); continue; }
        if (i + 1 >= n) break;
        if (seen.has(opt)) break;
        sx.cover("option value");
        seen.add(opt);
        i++;
        continue;
      }
      break; // an argument or an error: no command comes after either
    }
    if (i < n) sx.cover("stopped");
    sx.cover(at === "" ? "root" : at === "hi" ? "hidden command" : at.includes(" ") ? "nested command" : "command");
    const N = NODES[at];
    const p = make();
    const page: any = getDocPage(p, words);
    sx.assert(page !== undefined, "there is no help page");
    const got: string[] = [];
    for (const s of page.sections) for (const e of s.entries) got.push((s.title ?? "") + "|" + formatUsage("p", [{ ...e.term, hidden: undefined }] as any).slice(2) + "|" + flat(e.description) + (e.default ? " [" + flat(e.default) + "]" : ""));
    const cmdGroup = at === "" && (ck === "group" || ck === "groupField") ? "Cmds" : undefined;
    const want = N.entries.map(([s, t, x]) => (s ?? cmdGroup ?? "") + "|" + t + "|" + x);
    if (hasGlob) want.push((globSec ?? "") + "|-g/--gl|global");
    const names = (xs: string[]) => xs.map((x) => x.replace(/\|-c\/--ch [A-Z]+\|chosen \["p"\]/, "|-c/--ch TYPE|chosen")).sort().join("\n");
    const g = names(got), w = names(want);
    sx.assert(g === w, "the help page of " + (at || "the program") + " lists other entries than it has");
    const sub = at.split(" ")[0];
    sx.assert(new Set(page.sections.map((s: any) => s.title)).size === page.sections.length, "a section of the help page is split");
    // the usage starts with the command's path
    const u = formatUsage("p", page.usage);
    if (narrowed && at !== "") {
      const rest = u.slice(2);
      sx.assert(rest === at || rest.startsWith(at + " "), "the usage of a command does not start with the command");
    }
    if (!narrowed && sub !== "hi") sx.assert(!u.includes("hi ["), "a hidden command is in the usage");
    if (sub === "hi") sx.assert(u.includes("hi"), "the usage of a hidden command does not name it");
    sx.assert(!u.includes("--sec"), "a hidden option is in the usage");
    if (hasGlob) sx.assert(u.includes("--gl"), "the global option is missing in the usage");
    if (at === "add") for (const t of ["-n INTEGER", "-c/--ch", "STRING"]) sx.assert(u.includes(t), "a part of the command is missing in its usage");
    if (at === "rm al") for (const t of ["-f", "-q"]) sx.assert(u.includes(t), "a part of the command is missing in its usage");
    if (texts) {
      const [brief, desc, footer] = N.texts ?? [undefined, undefined, undefined];
      sx.assert(flat(page.brief) === brief && flat(page.description) === desc && flat(page.footer) === footer, "the help page has other texts than the command");
    }
    const page2 = await getDocPageAsync(p, words);
    sx.assert(JSON.stringify(page2) === JSON.stringify(page), "the asynchronous help page is another");
  },
};
