import { parse } from "@optique/core/parser";
import { merge, object } from "@optique/core/constructs";
import { argument, command, option, passThrough } from "@optique/core/primitives";
import { multiple, optional } from "@optique/core/modifiers";
import { string } from "@optique/core/valueparser";
import { lengths, tokens } from "../_lib/ref.ts";

type Format = "equalsOnly" | "nextToken" | "greedy";
const known = () => ({ debug: option("-d", "--dbg"), name: optional(option("-n", "--nm", string())) });
const SHAPES: Record<string, (f: Format) => any> = {
  plain: (f) => object({ ...known(), extra: passThrough({ format: f }) }),
  files: (f) => object({ ...known(), files: multiple(argument(string())), extra: passThrough({ format: f }) }),
  first: (f) => object({ extra: passThrough({ format: f }), files: multiple(argument(string())), ...known() }),
  apart: (f) => merge(object({ extra: passThrough({ format: f }) }), object(known())),
  command: (f) => command("x", object({ ...known(), extra: passThrough({ format: f }) })),
};
// undefined: the documentation leaves the case open; null: must be rejected
function reference(sx: any, args: string[], format: Format, files: boolean) {
  const v: any = { debug: false, name: undefined, files: [], extra: [] };
  let terminated = false, named = false;
  for (let i = 0; i < args.length; i++) {
    const t = args[i];
    if (!terminated && t === "--") {
      terminated = true;
      continue;
    }
    if (terminated) {
      if (files) v.files.push(t);
      else if (format === "greedy") { v.extra.push(...args.slice(i)); return v; }
      else return null;
      continue;
    }
    if (t === "-d" || t === "--dbg") {
      if (v.debug) return undefined;
      v.debug = true;
      continue;
    }
    if (t === "-n" || t === "--nm") {
      if (named || i + 1 >= args.length || args[i + 1].startsWith("-")) return undefined;
      v.name = args[++i];
      named = true;
      continue;
    }
    if (t.startsWith("--nm=")) {
      if (named) return undefined;
      v.name = t.slice(5);
      named = true;
      continue;
    }
    if (t.startsWith("--dbg=")) return undefined;
    if (!t.startsWith("-")) {
      if (files) v.files.push(t);
      else if (format === "greedy") { v.extra.push(...args.slice(i)); return v; }
      else return null;
      continue;
    }
    const joined = sx.test(/^--[a-z0-9-]+=/i, t);
    if (!joined && !sx.test(/^--?[a-z0-9-]+$/i, t)) return undefined;
    if (!joined && t[1] !== "-" && (t[1] === "d" || t[1] === "n")) return undefined; // a bundle
    if (format === "greedy") { v.extra.push(...args.slice(i)); return v; }
    if (format === "equalsOnly") {
      if (!joined) return null;
      v.extra.push(t);
      continue;
    }
    v.extra.push(t);
    if (!joined && i + 1 < args.length && !args[i + 1].startsWith("-")) v.extra.push(args[++i]);
    else if (!joined && i + 1 < args.length && !sx.test(/^-[a-z0-9-]/i, args[i + 1])) return undefined;
  }
  return v;
}
export default {
  name: "pass",
  bounds: "5 shapes x 3 formats; command lines of 0-3 (thorough: 4) tokens of 0-6 printable ASCII characters",
  assumptions: ["tokens that start with '-' but are neither an option name nor --name=value, bundles of known flags, and repeated or incomplete known options are only checked for conservation"],
  covers: ["extra", "rejected", "both"],
  cases(tier: string) {
    const out: any[] = [];
    for (const s of Object.keys(SHAPES)) for (const f of ["equalsOnly", "nextToken", "greedy"]) {
      for (let k = 0; k <= 2; k++) for (const l of lengths(k, k > 1 ? 1 : 0, 3)) out.push([s, f, l]);
      for (const l of [[6, 1], [5, 5], [2, 1, 2], [2, 3, 1], [5, 2, 1], [4, 2, 2]]) out.push([s, f, l]);
      if (tier !== "quick") for (const l of [...lengths(3, 1, 3), ...lengths(4, 1, 2), [6, 6], [6, 5, 2], [2, 4, 6]]) out.push([s, f, l]);
    }
    return out;
  },
  run(sx: any) {
    const [shape, format, lens] = sx.case;
    const files = shape === "files" || shape === "first";
    const args = tokens(sx, lens);
    const r = parse(SHAPES[shape](format), shape === "command" ? ["x", ...args] : args) as any;
    sx.observe("ok", r.success);
    if (r.success) sx.observe("value", r.value);
    const want = reference(sx, args, format, files);
    // merge() of the pass-through object with another: options declared in the other one
    const late = shape === "apart" && args.some((t, i) => i > 0 && (t === "-d" || t === "--dbg" || t === "-n" || t === "--nm" || t.startsWith("--nm=")))
      ? " (an option declared in another merged object follows)" : "";
    if (r.success) {
      // conservation: what is passed through is, in order, part of the input
      let at = 0;
      for (const e of r.value.extra) {
        let found = false;
        while (at < args.length && !found) { const a = args[at++]; found = a === e || (e.length < a.length && e.startsWith("-") && a.startsWith("-") && a.endsWith(e.slice(1))); }
        sx.assert(found, "something that was not typed is passed through, or in another order");
      }
    }
    if (want === undefined) return;
    if (want === null) {
      sx.cover("rejected");
      sx.assert(!r.success, "a token that may not be passed through is accepted" + late);
      return;
    }
    sx.assert(r.success, "a command line with only known and passed-through tokens is rejected" + late);
    if (want.extra.length) sx.cover(want.files.length ? "both" : "extra");
    sx.assert(sx.eq(r.value.extra, want.extra), "the tokens passed through are not the unrecognized ones" + late);
    sx.assert(r.value.debug === want.debug && sx.eq(r.value.name, want.name), "a known option is not read as usual");
    if (files) sx.assert(sx.eq(r.value.files, want.files), "positional arguments are not the remaining ones");
  },
};
