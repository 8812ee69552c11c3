import { conditional, object } from "@optique/core/constructs";
import { getDocPageAsync, parse, parseAsync, suggestAsync } from "@optique/core/parser";
import { option } from "@optique/core/primitives";
import { optional } from "@optique/core/modifiers";
import { string } from "@optique/core/valueparser";

const o: any = option;
const VALUES = ["j", "h", "toString", "constructor", "__proto__", "hasOwnProperty", "valueOf", "0", "J", ""];
const BRANCHES: Record<string, [string[], string[]]> = { own: [["j"], ["h"]], odd: [["toString", "__proto__"], ["j", "constructor"]], num: [["0", "j"], [""]] };
const asAsync = (vp: any): any => ({ ...vp, mode: "async", parse: (s: string) => Promise.resolve(vp.parse(s)) });
export default {
  name: "names",
  bounds: "conditional() with a free-text discriminator, with and without a default branch, 3 sets of branch names; any of 10 discriminator values (declared ones, names every object inherits, numerals, the empty text, another case) given separately or joined, before or after the branch's option, whose value is 0-2 printable ASCII characters; synchronous and asynchronous",
  assumptions: [],
  covers: ["branch chosen", "no such branch", "default"],
  cases: () => {
    const out: any[] = [];
    for (const b of Object.keys(BRANCHES)) for (const d of [0, 1]) for (const a of [0, 1]) for (const form of ["sep", "join", "after", "none"]) out.push([b, d, a, form]);
    return out;
  },
  async run(sx: any) {
    const [b, d, a, form] = sx.case;
    const w = a ? asAsync : (x: any) => x;
    const [xs, ys] = BRANCHES[b];
    const table: any = {};
    // defined, not assigned: "__proto__" is a name like any other
    for (const k of xs) Object.defineProperty(table, k, { value: object({ x: o("-x", w(string())) }), enumerable: true, writable: true, configurable: true });
    for (const k of ys) Object.defineProperty(table, k, { value: object({ y: optional(o("-y", w(string()))) }), enumerable: true, writable: true, configurable: true });
    const dflt = object({ z: optional(o("-y", w(string()))) });
    const p: any = d ? (conditional as any)(o("--r", w(string())), table, dflt) : (conditional as any)(o("--r", w(string())), table);
    const v = sx.pick("v", VALUES), s = sx.str("s", { min: 0, max: 2, chars: [[0x20, 0x7e]] });
    sx.assume(!s.startsWith("-"));
    const opt = sx.pick("opt", ["-x", "-y"]);
    const args = form === "sep" ? ["--r", v, opt, s] : form === "join" ? ["--r=" + v, opt, s] : form === "after" ? [opt, s, "--r", v] : [opt, s];
    const r: any = a ? await parseAsync(p, args) : parse(p, args);
    sx.observe("r", r.success);
    const given = form !== "none";
    const key = given ? [...xs, ...ys].includes(v) ? v : undefined : undefined;
    const ok = given ? key !== undefined && (xs.includes(v) ? opt === "-x" : opt === "-y") : d === 1 && opt === "-y";
    if (given && key === undefined) sx.cover("no such branch");
    if (!ok) sx.assert(!r.success, "a command line is accepted although no branch the discriminator names accepts it");
    else if (form === "after") { if (r.success) sx.assert(r.value[0] === v, "another branch's name is returned"); }
    else {
      sx.assert(r.success, "a command line the chosen branch accepts is rejected");
      sx.assert(r.value[0] === (given ? v : undefined), "another branch's name is returned");
      sx.assert(sx.eq(given ? opt === "-x" ? r.value[1].x : r.value[1].y : r.value[1].z, s), "the branch's value is not what the tokens say");
      sx.cover(given ? "branch chosen" : "default");
    }
    const words = [];
    for (const x of await suggestAsync(p, [...args.slice(0, form === "join" ? 1 : 2), "-"] as any)) words.push((x as any).text);
    if (form === "sep" || form === "join") sx.assert(key !== undefined ? words.includes(xs.includes(v) ? "-x" : "-y") : !words.includes("-x") , "completion offers another branch's options");
    sx.assert(await getDocPageAsync(p, args) !== undefined, "there is no help page");
  },
};
