import { object } from "@optique/core/constructs";
import { option } from "@optique/core/primitives";
import { optional } from "@optique/core/modifiers";
import { runWith, runWithSync } from "@optique/core/facade";
import { string } from "@optique/core/valueparser";
import { bindConfig, createConfigContext } from "@repo/packages/config/src/index.ts";
import { fsHooks } from "../_lib/model_fs.ts";

const CH = [["a", "z"], ["/", "/"], [".", "."]] as any;
// how the configuration turns out
const FILE = ["found", "missing", "unreadable", "malformed", "no path", "empty path", "refused by the schema", "null", "schema gives nothing"];
const LOAD = ["found", "no data", "null data", "throws", "no object", "no config", "refused by the schema", "promise in it"];
export default {
  name: "load",
  bounds: "a field bound by property name and one bound by accessor, with and without defaults, and the same two fields bound to a second context; file mode with 9 outcomes (path, missing, unreadable or malformed file, schema verdicts), load() mode with 8 outcomes, at once and as a promise; synchronous and promised schema; --config given or not (symbolic path of 1-3 characters), values symbolic of 0-2 characters, --help asked for or not; runWith and runWithSync",
  assumptions: ["the parser given as fileParser stands for the file format; the JSON default is tried on fixed contents"],
  covers: ["value", "default", "missing value", "fault", "help", "meta", "command line"],
  cases(tier: string) {
    const out: any[] = [];
    for (const api of ["sync", "async"]) for (const mode of ["file", "json", "load"]) for (const how of mode === "load" ? LOAD : FILE) for (const late of [0, 1, 2]) for (const dflt of [0, 1]) for (const ask of ["none", "-f", "help"]) {
      if (late > 0 && api === "sync") continue;
      if (late === 1 && mode !== "load") continue; // 1: load() gives a promise, 2: the schema does
      if (mode === "json" && how !== "found" && how !== "malformed") continue;
      if (ask !== "none" && (dflt === 1 && ask === "help")) continue;
      out.push([api, mode, how, late, dflt, ask]);
    }
    return out;
  },
  async run(sx: any) {
    const [api, mode, how, late, dflt, ask] = sx.case;
    const path = sx.flag("--config") ? sx.str("path", { min: 1, max: 3, chars: CH }) : undefined;
    const h = mode === "json" ? "ho" : sx.str("host", { max: 2, chars: "ab" });
    const k2 = mode === "json" ? "pr" : sx.str("second", { max: 1, chars: "ab" });
    const has = mode === "json" || sx.flag("has");
    const calls: string[] = [], seen: any[] = [];
    const raw = mode === "json" ? undefined : { ...(has && { host: h }), other: k2 };
    const refuse = how === "refused by the schema";
    const boom = Object.assign(new Error("boom"), { code: "EACCES" });
    const schema = (n: string, r: boolean): any => ({ "~standard": { version: 1, vendor: "x", validate(v: any) {
      calls.push("schema" + n);
      const res = r ? { issues: [{ message: "bad" + n }] } : { value: how === "schema gives nothing" && n === "1" ? undefined : v === null || v === undefined ? v : { ...v, ...(typeof v.host === "string" && { host: v.host + n }) } };
      return late === 2 ? Promise.resolve(res) : res;
    } } });
    const parseFile = (b: any) => { calls.push("parse"); if (how === "malformed") throw new SyntaxError("bad text"); return how === "null" ? null : raw; };
    const c1: any = createConfigContext({ schema: schema("1", refuse), ...(mode === "file" && { fileParser: parseFile }) } as any);
    fsHooks.readFileSync = (p: string) => {
      calls.push("read"); seen.push(p);
      if (how === "missing") throw Object.assign(new Error("none"), { code: "ENOENT" });
      if (how === "unreadable") throw boom;
      return new TextEncoder().encode(how === "malformed" ? '{"host": }' : '{"host": "ho", "other": "pr"}');
    };
    const d = (x: string) => dflt ? { default: x } : {};
    const metas: any[] = [];
    const g = object({
      c: optional(option("--config", string())),
      f: bindConfig(option("-f", string()), { context: c1, key: "host", ...d("D1") } as any),
      a: bindConfig(option("-a", string()), { context: c1, key: (c: any, m: any) => { metas.push(m); return c.other === undefined ? undefined : c.other + "?"; }, ...d("D2") } as any),
    });
    const seeds: any[] = [];
    const meta = { tag: 1 };
    const contextOptions: any = mode === "load"
      ? { load(parsed: any) {
        calls.push("load"); seeds.push(parsed);
        if (how === "throws") { if (late === 1) return Promise.reject(boom); throw boom; }
        const r = how === "no data" ? undefined : how === "no object" ? [1] : how === "no config" ? { meta } : how === "null data" ? { config: null, meta } : how === "promise in it" ? { config: Promise.resolve({}), meta } : { config: raw, meta };
        return late === 1 ? Promise.resolve(r) : r;
      } }
      : { getConfigPath(parsed: any) { calls.push("path"); seeds.push(parsed); return how === "no path" ? undefined : how === "empty path" ? "" : parsed.c ?? "dflt"; } };
    const args = [...(path !== undefined ? ["--config", path] : []), ...(ask === "-f" ? ["-f", "cli"] : []), ...(ask === "help" ? ["--help"] : [])];
    const exits: number[] = [], outs: string[] = [];
    let value: any, thrown: any, threw = false;
    const options: any = { args, help: { option: true, onShow: () => "help" }, stdout: () => outs.push("o"), stderr: () => outs.push("e"), onError: (c: number) => { exits.push(c); return "error"; }, contextOptions };
    try { value = api === "sync" ? runWithSync(g, "prog", [c1], options) : await runWith(g, "prog", [c1], options); } catch (e) { threw = true; thrown = e; }
    if (ask === "help") {
      sx.cover("help");
      sx.assert(calls.length === 0, "the configuration is loaded although help was asked for");
      sx.assert(!threw && value === "help" && outs[0] === "o" && exits.length === 0, "help does not work");
      return;
    }
    const n = (c: string) => calls.filter((x) => x === c).length;
    sx.assert(n("load") + n("path") === 1, "the configuration is not loaded exactly once");
    for (const s of seeds) {
      sx.assert(sx.eq(s.c, path), "the configuration is not looked for with what the command line says");
      sx.assert(ask === "-f" ? s.f === "cli" : s.f === undefined || dflt === 1, "a field's value is wrong while the configuration is looked for");
    }
    if (mode !== "load") {
      sx.assert(n("read") === (how === "no path" || how === "empty path" ? 0 : 1), "the file is not read exactly once");
      for (const p of seen) {
        const want = path ?? "dflt";
        // "../" may lead up to "/": only the start is the same for every working directory
        sx.assert(p.length > 0 && p[0] === "/", "the path is not made absolute");
        if (!want.includes(".") && !want.includes("/")) sx.assert(sx.eq(p.slice(p.length - want.length), want), "another file is read");
      }
    }
    const fatal = ["unreadable", "malformed", "refused by the schema", "throws", "no object", "no config", "promise in it"].includes(how);
    if (fatal) {
      sx.cover("fault");
      sx.assert(threw && exits.length === 0, "a broken configuration goes unnoticed");
      if (how === "unreadable" || how === "throws") sx.assert(thrown === boom, "the error of loading is replaced");
      sx.assert(thrown instanceof Error && (how !== "malformed" || thrown.message.indexOf("config file") >= 0) && (!refuse || thrown.message.indexOf("bad1") >= 0), "the error does not say what is wrong");
      return;
    }
    sx.assert(!threw, "a run fails although nothing is wrong");
    if (threw) return;
    const data = how === "found";
    const wantF = ask === "-f" ? "cli" : data && has ? h + "1" : dflt ? "D1" : undefined;
    const wantA = data ? k2 + "?" : dflt ? "D2" : undefined;
    if (ask === "-f") sx.cover("command line");
    if (wantF === undefined || wantA === undefined) {
      sx.cover("missing value");
      sx.assert(exits.length === 1 && exits[0] === 1 && value === "error", "a missing value is not reported");
      return;
    }
    sx.cover(data ? "value" : "default");
    sx.assert(exits.length === 0, "a value that is there is not found");
    if (exits.length > 0) return;
    sx.assert(sx.eq(value.f, wantF), "a field bound by name does not get the configuration's value");
    sx.assert(sx.eq(value.a, wantA), "a field bound by accessor does not get the configuration's value");
    sx.assert(sx.eq(value.c, path), "another option is disturbed");
    if (data) {
      sx.cover("meta");
      for (const m of metas) {
        if (mode === "load") sx.assert(m === meta, "the accessor is not given the metadata of load()");
        else sx.assert(m !== undefined && sx.is(sx.eq(m.configPath, seen[0])) && m.configPath.length >= m.configDir.length && sx.is(sx.eq(m.configPath.slice(0, m.configDir.length), m.configDir)) && !sx.is(sx.eq(m.configPath, m.configDir) && m.configPath.length > 1), "the accessor is not given the file's path and directory");
      }
    }
  },
};
