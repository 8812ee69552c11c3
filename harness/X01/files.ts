import { mix } from "../_lib/mix.ts";
import { commandsFromModules, defineCommand, discoverCommands } from "@optique/discover";
import { constant } from "@optique/core/primitives";
import { fspHooks } from "../_lib/model_fsp.ts";
import { served } from "../_lib/model_url.ts";
import { commandPath, samePath } from "../_lib/filetree.ts";

const EXTS: string[][] = [[".ts"], [".ts", ".cmd.ts"], [".cmd.ts", ".ts", ".x.cmd.ts"], [".js", ".cmd.js"]];
// what a name ends in, after its stem
const TAILS = [".ts", ".cmd.ts", ".test.ts", ".test.cmd.ts", ".cmd.test.ts", ".spec.x.cmd.ts", ".d.ts", ".d.cmd.ts", ".d.cts", ".js", ".test.js", ".tests.ts", "test.ts"];
const ENTRY: (string | false | undefined)[] = [undefined, "mod", false];
// trees: [name, thing]; things: "f" a file, a list a directory, "-> x" a link to file x, to directory x, to the root (/), to nothing or to something that is neither
const S = "*"; // a name with an unknown stem and tail
type Tree = [string, any][];
const TREES: Tree[] = [
  [[S, "f"], [S, "->f"]], [[S, "->f"], ["u", [[S, "f"]]]], [[S, "f"], ["u", "->/"]], [["u", [[S, "f"], ["v", "->/"]]]], [["u", [[S, "f"], ["v", "->u"]]], ["w", "->u"]],
  [["u", [[S, "f"]]], ["v", "->u"]], [[S, "f"], [S, "->none"]], [[S, "f"], [S, "->pipe"]], [[S, "f"], [S, "pipe"]], [["u", "->none"], [S, "f"]],
  [["a b", [[S, "f"]]], ["a", [["b", [[S, "f"]]]]]], [["a", [["b.ts", "f"]]], [S, "f"]], [["u", [[S, "f"], ["v", "->w"]]], ["w", [["x", "->u"], [S, "f"]]]],
];
const GOOD = ["itself", "wrapped"], BAD = ["undefined", "null", "object", "function", "array", "circle", "command-like"];
let n = 0;
export default {
  name: "files",
  bounds: "13 trees with links to files, directories (their parents and each other included), nothing and things that are neither; names made of an unknown letter or space and one of 13 endings; four suffix lists, three entry names; modules that export a command, a wrapped one, or seven other things; paths declared rightly, wrongly, or not; given as a directory or as a module map",
  assumptions: ["a directory that is inside itself by way of links is not entered again", "a POSIX file system"],
  covers: ["command", "ignored", "link", "circle", "bad export", "declared", "declared otherwise", "duplicate", "none left"],
  cases(tier: string) {
    const out: any[] = [];
    let m = 0;
    for (let t = 0; t < TREES.length; t++) for (let e = 0; e < EXTS.length; e++) for (let en = 0; en < 3; en++) for (let x = 0; x < 5; x++) {
      m++;
      if (tier === "quick" && mix(m) % 11 !== 0) continue;
      out.push([t, e, en, x, mix(m + 3) % (x < 3 ? GOOD.length : BAD.length), x === 3 || mix(m + 5) % 4 > 0 ? "dir" : "map", mix(m + 1) % 4]);
    }
    return out;
  },
  async run(sx: any) {
    const [ti, ei, ni, x, xk, way, how] = sx.case;
    const exts = EXTS[ei], entry = ENTRY[ni], want: string | false = entry === undefined ? "index" : entry;
    const kind = x < 3 ? GOOD[xk] : BAD[xk];
    // the tree with its names
    let count = 0;
    const tails = TAILS.filter((_, k) => mix(k + ti * 3 + ei) % 4 < 3);
    const build = (t: Tree, top: boolean): any => ({ dir: t.map(([name, what]) => {
      const nm = name !== S ? name : (sx.flag("entry" + count) && want ? want : sx.str("s" + count, { len: 1, chars: "ab " })) + sx.pick("tail" + count, tails);
      count++;
      return { name: nm, node: Array.isArray(what) ? build(what, false) : { leaf: what } };
    }), top });
    const root = build(TREES[ti], true);
    const names = (d: any): void => { for (let i = 0; i < d.dir.length; i++) { for (let j = 0; j < i; j++) sx.assume(sx.not(sx.eq(d.dir[i].name, d.dir[j].name))); if (d.dir[i].node.dir) names(d.dir[i].node); } };
    names(root);
    const find = (name: string): any => { let r: any; const go = (d: any) => { for (const e of d.dir) { if (e.name === name && e.node.dir) r = e.node; if (e.node.dir) go(e.node); } }; go(root); return r; };
    const target = (leaf: string): any => leaf === "->/" ? root : leaf === "->f" ? "file" : leaf === "->none" ? undefined : leaf === "->pipe" ? "pipe" : find(leaf.slice(2));
    // what is found: every file by every way to it that does not pass one directory twice
    const found: { dirs: string[]; name: string }[] = [];
    const dirAt = (p: string): any => { // resolves links
      let d: any = root;
      const rest = p.slice(2).split("/").slice(1);
      for (const s of rest) {
        const e = d.dir.find((e: any) => sx.is(sx.eq(e.name, s)));
        d = e?.node.dir ? e.node : e && e.node.leaf.startsWith("->") ? target(e.node.leaf) : e?.node.leaf;
        if (typeof d !== "object") return d;
      }
      return d;
    };
    const walk = (d: any, dirs: string[], active: any[]): void => {
      if (active.includes(d)) { sx.cover("circle"); return; }
      for (const e of d.dir) {
        const t = e.node.dir ? e.node : e.node.leaf === "f" ? "file" : e.node.leaf.startsWith("->") ? target(e.node.leaf) : undefined;
        if (t && typeof t === "object") walk(t, [...dirs, e.name], [...active, d]);
        else if (t === "file") { if (!e.node.dir && e.node.leaf !== "f") sx.cover("link"); found.push({ dirs, name: e.name }); }
      }
    };
    walk(root, [], []);
    const live = found.map((f) => ({ ...f, rel: [...f.dirs, f.name].join("/"), path: commandPath(sx, f.dirs, f.name, exts, want) })).filter((f) => { if (!f.path) sx.cover("ignored"); return f.path; });
    // what the modules export
    const cmds = live.map((f, i) => {
      const path = i > 0 || how < 2 ? undefined : how === 2 ? f.path : sx.pick("decl", ["nothing", "longer", "joined"]);
      const p: any = path === "nothing" ? [] : path === "longer" ? [...f.path!, "z"] : path === "joined" ? [f.path!.join(" ") || "z"] : path;
      return defineCommand({ ...(p !== undefined && { path: p }), parser: constant(n++), handler() {} } as any);
    });
    const declaredWrong = live.length > 0 && how === 3 && !samePath(sx, (cmds[0] as any).path, live[0].path!);
    const bad = x >= 3;
    const wrap = (c: any, i: number): any => {
      if (bad && i === live.length - 1) {
        const self: any = {}; self.default = self;
        return kind === "undefined" ? undefined : kind === "null" ? null : kind === "object" ? {} : kind === "function" ? () => c : kind === "array" ? [c] : kind === "circle" ? self : { parser: constant(1), handler() {} };
      }
      return kind === "wrapped" && i % 2 === 0 ? { default: c } : c;
    };
    const exportsOf = cmds.map(wrap);
    let got: any, err: any;
    try {
      if (way === "map") {
        const map: any = {};
        live.forEach((f, i) => { map["./c/" + f.rel] = exportsOf[i] !== null && typeof exportsOf[i] === "object" && i % 3 === 1 ? exportsOf[i] : { default: exportsOf[i] }; });
        found.forEach((f) => { const k = "./c/" + [...f.dirs, f.name].join("/"); if (!(k in map)) map[k] = { default: 1 }; });
        got = commandsFromModules(map, { base: "./c", extensions: exts, entryFileName: entry });
      } else {
        const entryOf = (e: any) => ({ name: e.name, isDirectory: () => !!e.node.dir, isFile: () => e.node.leaf === "f", isSymbolicLink: () => !e.node.dir && e.node.leaf.startsWith("->") });
        const id = (d: any): string => { let r = ""; const go = (c: any, at: string) => { if (c === d) r = at; for (const e of c.dir) if (e.node.dir) go(e.node, at + "/" + e.name); }; go(root, "/c"); return r; };
        let reads = 0;
        fspHooks.realpath = (p: any) => id(dirAt(p));
        fspHooks.stat = (p: any) => {
          const t = dirAt(p);
          if (t === undefined) throw Object.assign(new Error("none"), { code: "ENOENT" });
          return { isDirectory: () => typeof t === "object", isFile: () => t === "file" || t === "f" };
        };
        fspHooks.readdir = (p: any) => {
          if (++reads > 60) sx.fail("directories that contain each other are read without end");
          return dirAt(p).dir.map(entryOf);
        };
        served.asked = [];
        (globalThis as any)[Symbol.for("sx.served")] = (k: number) => exportsOf[live.findIndex((f) => sx.is(sx.eq("/c/" + f.rel, served.asked[k])))];
        got = await discoverCommands({ dir: "/c", extensions: exts, entryFileName: entry });
      }
    } catch (e) { err = e; }
    let clash = false;
    for (let i = 0; i < live.length; i++) for (let j = 0; j < i; j++) if (samePath(sx, live[i].path!, live[j].path!)) clash = true;
    sx.observe("r", err ? err.constructor.name : got.length);
    if (live.length === 0) { sx.cover("none left"); sx.assert(err instanceof TypeError, "a program without commands is taken"); return; }
    if (clash || declaredWrong || bad) {
      sx.cover(clash ? "duplicate" : declaredWrong ? "declared otherwise" : "bad export");
      sx.assert(err instanceof TypeError, clash ? "two modules for one command path are taken" : declaredWrong ? "a module that declares another path than its file's is taken" : "a module that exports no command is taken");
      return;
    }
    if (err) throw err;
    sx.cover("command");
    if (how === 2) sx.cover("declared");
    sx.assert(got.length === live.length, "modules are lost or files that are no command modules are taken");
    live.forEach((f, i) => {
      const g = got.filter((e: any) => e.command === cmds[i]);
      sx.assert(g.length === 1 && samePath(sx, g[0].path, f.path!), "a module is found under another command path than its file's");
    });
  },
};
