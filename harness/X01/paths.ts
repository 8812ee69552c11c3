import { mix } from "../_lib/mix.ts";
import { commandsFromModules, defineCommand, discoverCommands } from "@optique/discover";
import { generateCommandsModule } from "@optique/discover/generator";
import { constant } from "@optique/core/primitives";
import { fspHooks } from "../_lib/model_fsp.ts";
import { served } from "../_lib/model_url.ts";
import { commandPath, samePath } from "../_lib/filetree.ts";

const EXTS: string[][] = [[".ts"], [".ts", ".cmd.ts"], [".cmd.ts", ".js", ".ts"], [".mts", ".js"]];
const ENTRY: (string | false | undefined)[] = [undefined, "mod", false];
// where the files are: directories under the command directory, `?` an unnamed one
const SHAPES: string[][] = [[""], ["", ""], ["", "u"], ["u", "u"], ["u", "u/v"], ["?", "u"], ["", "u", "u"], ["?", "?"]];
const names: [number, string][] = [
  [4, "abu.ts"], [5, "ab.tsmj"], [6, "a.dts"], [7, "a.dctsm"], [8, "index.ts"], [6, "mod.ts"], [8, "a.cmdts"], [9, "a.tesp.c"], [9, "a.spect"], [5, "#%?a.ts"],
];
let n = 0;
const mk = () => defineCommand({ parser: constant(n++), handler() {} });
export default {
  name: "paths",
  bounds: "trees of 1-3 files in 8 arrangements of up to two directories; names of 4-9 characters, every character unknown over the letters of the suffixes and entry names in use; four suffix lists (compound ones included), entry names index, mod and none; modules given as a directory, as a module map under seven base paths (relative, absolute, dotted, trailing slash), and as a generated module",
  assumptions: ["a POSIX file system: `/` separates, other characters belong to names", "a file name is more than its suffix and dots", "each module exports its command by default"],
  covers: ["command", "entry", "ignored", "duplicate", "none left"],
  cases(tier: string) {
    const out: any[] = [];
    let m = 0;
    for (let s = 0; s < SHAPES.length; s++) for (let e = 0; e < EXTS.length; e++) for (let k = 0; k < names.length; k++) for (const way of ["dir", "map", "gen"]) {
      m++;
      if (tier === "quick" && mix(m) % [0, 2, 5, 13][SHAPES[s].length] !== 0) continue;
      out.push([s, e, mix(m + 7) % 3, k, (k + 1 + mix(m + 9) % 4) % names.length, way, mix(m + 11) % 7]);
    }
    return out;
  },
  async run(sx: any) {
    const [si, ei, ni, k1, k2, way, bi] = sx.case;
    const exts = EXTS[ei], entry = ENTRY[ni], want: string | false = entry === undefined ? "index" : entry;
    const files = SHAPES[si].map((d: string, i: number) => {
      const [len, chars] = names[i === 0 ? k1 : k2];
      const dirs = d === "" ? [] : d.split("/").map((x) => x === "?" ? sx.str("d" + i, { len: 1, chars: "abu" }) : x);
      const name = sx.str("n" + i, { len, chars });
      for (const e of exts) for (const dots of ["", ".", ".."]) sx.assume(sx.not(sx.eq(name, dots + e)));
      return { dirs, name, rel: [...dirs, name].join("/"), command: mk() };
    });
    for (let i = 0; i < files.length; i++) for (let j = 0; j < i; j++) sx.assume(sx.not(sx.eq(files[i].rel, files[j].rel)));
    // a directory is not also a file
    for (const f of files) for (const g of files) if (f.dirs.length === 0 && g.dirs.length > 0) sx.assume(sx.not(sx.eq(f.name, g.dirs[0])));
    const expected = files.map((f: any) => commandPath(sx, f.dirs, f.name, exts, want));
    const live = files.filter((_: any, i: number) => expected[i] !== undefined);
    let clash = false;
    for (let i = 0; i < files.length; i++) for (let j = 0; j < i; j++) if (expected[i] && expected[j] && samePath(sx, expected[i]!, expected[j]!)) clash = true;
    let got: any, err: any;
    try { got = way === "map" ? fromMap(files, exts, entry, bi) : await fromDir(sx, files, exts, entry, way, bi); } catch (e) { err = e; }
    for (let i = 0; i < files.length; i++) sx.cover(expected[i] === undefined ? "ignored" : expected[i]!.length < files[i].dirs.length + 1 ? "entry" : "command");
    if (clash) { sx.cover("duplicate"); sx.assert(err instanceof TypeError, "two modules for one command path are taken"); return; }
    if (live.length === 0) { sx.cover("none left"); sx.assert(err instanceof TypeError, "a program without commands is taken"); return; }
    if (err) { sx.observe(err.message); throw err; }
    sx.assert(got.length === live.length, "modules are lost or files that are no command modules are taken");
    for (let i = 0; i < files.length; i++) {
      const g = got.filter((x: any) => x.command === files[i].command);
      if (expected[i] === undefined) { sx.assert(g.length === 0, "a declaration, test or other file is taken for a command"); continue; }
      sx.assert(g.length === 1 && samePath(sx, g[0].path, expected[i]!), "a module is found under another command path than its file's");
    }
  },
};
const BASES: [string, string][] = [["./commands", "./commands/"], ["commands", "./commands/"], ["./commands/", "commands/"], ["/a/commands", "/a/commands/"], ["../x", "../x/"], ["./a/../commands", "./commands/"], [undefined as any, "./"]];
function fromMap(files: any[], extensions: string[], entryFileName: any, bi: number) {
  const [base, prefix] = BASES[bi];
  const map: any = {};
  for (const f of files) map[prefix + f.rel] = { default: f.command };
  return commandsFromModules(map, { base, extensions, entryFileName });
}
const OUTS: [string, string][] = [["/p/commands", "/p/out.ts"], ["/p/commands", "/p/commands/gen.ts"], ["/p/commands", "/p/src/gen/out.ts"], ["/p/commands", "/q/out.ts"], ["/p/.cmds", "/p/out.ts"], ["/p/a#b", "/p/out.ts"], ["/p/a%b", "/p/c d/out.ts"]];
async function fromDir(sx: any, files: any[], extensions: string[], entryFileName: any, way: string, bi: number) {
  const [root, outputFile] = way === "gen" ? OUTS[bi] : ["/p/commands", ""];
  const kinds = { file: (n: any) => ({ name: n, isDirectory: () => false, isFile: () => true, isSymbolicLink: () => false }), dir: (n: any) => ({ name: n, isDirectory: () => true, isFile: () => false, isSymbolicLink: () => false }) };
  fspHooks.realpath = (p: any) => p;
  fspHooks.stat = () => { throw new Error("unexpected stat"); };
  fspHooks.readdir = (p: any) => {
    const here = (dirs: any[]) => sx.is(sx.eq(p, [root, ...dirs].join("/")));
    const out: any[] = [], subs: any[] = [];
    for (const f of files) {
      if (here(f.dirs)) out.push(kinds.file(f.name));
      for (let k = 0; k < f.dirs.length; k++) if (here(f.dirs.slice(0, k)) && !subs.some((s) => sx.is(sx.eq(s, f.dirs[k])))) { subs.push(f.dirs[k]); out.push(kinds.dir(f.dirs[k])); }
    }
    return out;
  };
  if (way === "dir") {
    served.asked = [];
    (globalThis as any)[Symbol.for("sx.served")] = (k: number) => files.find((f) => sx.is(sx.eq(root + "/" + f.rel, served.asked[k])))?.command;
    return await discoverCommands({ dir: root, extensions, entryFileName });
  }
  const { code } = await generateCommandsModule({ dir: root, outputFile, extensions, entryFileName });
  // the generated module, read as JavaScript reads it
  const outDir = outputFile.slice(0, outputFile.lastIndexOf("/"));
  const module: any = {}, modules: any = {};
  let options: any = {};
  let body = false;
  for (const line of code.split("\n")) {
    if (line.startsWith("import * as ")) {
      const [, id, spec] = split3(line);
      const path = resolveSpecifier(sx, outDir, JSON.parse(spec));
      module[id] = { default: files.find((f) => sx.is(sx.eq(root + "/" + f.rel, path)))?.command };
      sx.assert(module[id].default !== undefined, "the generated module imports a file that does not exist");
    } else if (line.startsWith("    ")) {
      const colon = line.startsWith('    "') ? line.lastIndexOf(": ") : line.indexOf(": ");
      const key = line.slice(4, colon), value = line.slice(colon + 2, line.length - 1);
      if (key.startsWith('"')) modules[JSON.parse(key)] = module[value];
      else options[key] = JSON.parse(value);
    }
    if (line.startsWith("export default commandsFromModules(")) body = true;
  }
  sx.assert(body, "the generated module exports no commands");
  return commandsFromModules(modules, options);
}
function split3(line: string) {
  const rest = line.slice(12), at = rest.indexOf(" from ");
  return ["", rest.slice(0, at), rest.slice(at + 6, rest.length - 1)];
}
function resolveSpecifier(sx: any, dir: string, spec: string): string {
  sx.assert(spec.startsWith("./") || spec.startsWith("../"), "the generated module imports by a name that is not a relative path");
  const out = dir.split("/").slice(1);
  for (const raw of spec.split("/")) {
    sx.assert(!sx.is(raw.includes("#")) && !sx.is(raw.includes("?")), "an import stops at a # or ? of a file name");
    if (raw === ".") continue;
    if (raw === "..") out.pop();
    else out.push(decodeURIComponent(raw));
  }
  return "/" + out.join("/");
}
