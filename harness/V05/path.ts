import { path } from "@repo/packages/run/src/valueparser.ts";
import { fsHooks } from "../_lib/model_fs.ts";

const EXT: string[][] = [[], [".js"], [".a", ".b.c"], ["."]];
const TYPES = ["either", "file", "directory"];
const MODES: any[] = [{}, { mustExist: true }, { mustNotExist: true }, { allowCreate: true }, { mustNotExist: true, allowCreate: true }, { mustExist: true, allowCreate: true }];
const dirOf = (sx: any, p: string): string[] => {
  // the directory that would hold the last segment, in any spelling
  let e = p.length;
  while (e > 0 && sx.is(p[e - 1] === "/")) e--;
  if (e === 0) return ["/", "//"];
  let s = e;
  while (s > 0 && !sx.is(p[s - 1] === "/")) s--;
  if (s === 0) return [".", "./", ""];
  const full = p.slice(0, s);
  let d = s;
  while (d > 0 && sx.is(p[d - 1] === "/")) d--;
  const out = [full];
  for (let k = d === 0 ? 1 : d; k < s; k++) out.push(p.slice(0, k));
  return out;
};
const endsWith = (sx: any, s: string, x: string) => s.length >= x.length && sx.is(sx.eq(s.slice(s.length - x.length), x));
export default {
  name: "path",
  bounds: "every path of 0-4 (thorough: 7) characters (ASCII and one non-ASCII), 6 existence settings, 3 types, 4 extension lists; existence and kind of the path and of its parent directory symbolic",
  assumptions: ["file system answers are those of one moment: they do not change during one parse", "POSIX paths"],
  covers: ["accepted", "blank", "extension refused", "missing", "exists already", "wrong kind", "no parent"],
  cases(tier: string) {
    const out: any[] = [];
    for (let m = 0; m < MODES.length; m++) for (let t = 0; t < TYPES.length; t++) for (let e = 0; e < EXT.length; e++)
      for (const l of tier === "quick" ? [0, 1, 3, 4] : [0, 1, 2, 3, 4, 5, 6, 7]) {
        if (tier === "quick" && (m > 3 || m === 0) && t === 1 && e > 1) continue;
        out.push([m, t, e, l]);
      }
    return out;
  },
  run(sx: any) {
    const [m, t, e, l] = sx.case;
    const opts: any = { ...MODES[m], type: TYPES[t], ...(EXT[e].length > 0 && { extensions: EXT[e] }) };
    const s = sx.str("p", { len: l, chars: [[9, 13], [0x20, 0x7e], [0xa0, 0xa0], [0xe9, 0xe9]] });
    const exists = sx.flag("exists"), parent = sx.flag("parent"), kind = sx.pick("kind", ["file", "directory", "other"]);
    const dirs = () => dirOf(sx, s);
    fsHooks.existsSync = (p: string) => {
      if (sx.is(sx.eq(p, s))) {
        // a path that is its own parent (the root) exists as the parent does
        if (dirs().some((d) => sx.is(sx.eq(d, s)))) return exists && parent;
        return exists;
      }
      sx.assert(dirs().some((d) => d !== "" && sx.is(sx.eq(p, d))), "a path other than the one given or its parent directory is looked up");
      return parent;
    };
    fsHooks.statSync = (p: string) => {
      sx.assert(sx.eq(p, s), "a path other than the one given is examined");
      sx.assert(exists, "a missing path is examined");
      return { isFile: () => kind === "file", isDirectory: () => kind === "directory" };
    };
    if (l > 0 && dirs().some((d) => sx.is(sx.eq(d, s)))) sx.assume(exists && parent);
    const r: any = path(opts).parse(s);
    // the documented constraints
    let want = true;
    const blank = l === 0 || sx.is(sx.test(/^\s+$/, s));
    if (blank) { want = false; sx.cover("blank"); }
    else {
      if (t !== 2 && EXT[e].length > 0) {
        let b = l;
        while (b > 0 && !sx.is(s[b - 1] === "/")) b--;
        // a path that ends in a separator names no file; a backslash counts as one too
        const name = sx.is(s[l - 1] === "\\") ? "" : s.slice(b);
        if (!EXT[e].some((x) => endsWith(sx, name, x))) { want = false; sx.cover("extension refused"); }
      }
      if (want && opts.mustNotExist && exists) { want = false; sx.cover("exists already"); }
      if (want && opts.mustExist && !exists) { want = false; sx.cover("missing"); }
      if (want && opts.mustExist && t > 0 && kind !== TYPES[t]) { want = false; sx.cover("wrong kind"); }
      if (want && opts.allowCreate && !opts.mustExist && !parent) { want = false; sx.cover("no parent"); }
    }
    if (want) sx.cover("accepted");
    sx.observe("ok", r.success);
    sx.assert(r.success === want, want ? "a path that satisfies the constraints is rejected" : "a path that violates a constraint is accepted");
    if (r.success) sx.assert(sx.eq(r.value, s), "the accepted path is not returned as given");
  },
};
