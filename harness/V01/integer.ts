import { parseTwice } from "../_lib/again.ts";
import { message } from "@optique/core/message";
import { integer, port } from "@optique/core/valueparser";

const e = message`no`;
const errors: any = { invalidInteger: e, invalidPort: e, belowMinimum: e, aboveMaximum: e, wellKnownNotAllowed: e, unsafeInteger: e };
function digits(sx: any, s: string) {
  if (s.length === 0) return false;
  for (let i = 0; i < s.length; i++) if (!sx.charIn(s[i], [["0", "9"]])) return false;
  return true;
}
/** the integer s denotes, or null */
function denotes(sx: any, s: string): bigint | null {
  const neg = s[0] === "-";
  const d = neg ? s.slice(1) : s;
  if (!digits(sx, d)) return null;
  return neg ? -sx.decimal(d) : sx.decimal(d);
}
export default {
  name: "integer",
  bounds: "integer() and port(), both result types, with symbolic bounds or none; inputs of 0-6 characters (any BMP character except surrogates) and digit strings of 15-20 characters",
  assumptions: ["custom error messages replace the default ones except in unbounded integer()"],
  covers: ["in", "out", "unsafe"],
  cases(tier: string) {
    const out: any[] = [];
    for (const kind of ["number", "bigint", "port", "bigport"]) for (const bounds of ["none", "min", "max", "both"]) {
      for (let n = 0; n <= (tier === "quick" ? 4 : 6); n++) out.push([kind, bounds, n, false]);
      for (const n of tier === "quick" ? [6, 16, 17] : [7, 8, 14, 15, 16, 17, 18, 20]) out.push([kind, bounds, n, true]);
    }
    return out;
  },
  run(sx: any) {
    const [kind, bounds, n, long] = sx.case;
    const big = kind.startsWith("big"), isPort = kind.endsWith("port");
    const s = sx.str("s", { len: n, chars: long ? [["0", "9"], "-"] : undefined });
    const R = isPort ? [-5, 70000] : [-60, 60];
    const min = bounds === "min" || bounds === "both" ? sx.int("min", R[0], R[1]) : undefined;
    const max = bounds === "max" || bounds === "both" ? sx.int("max", R[0], R[1]) : undefined;
    const well = isPort && n % 2 === 1;
    const conv = (x: any) => x === undefined ? undefined : big ? BigInt(x) : x;
    const lo = min ?? (isPort ? 1 : undefined), hi = max ?? (isPort ? 65535 : undefined);
    const o: any = { type: big ? "bigint" : "number", min: conv(min), max: conv(max), ...(isPort ? { disallowWellKnown: well } : {}) };
    if (bounds !== "none" || isPort) o.errors = errors;
    let p: any;
    try {
      p = isPort ? port(o) : integer(o);
    } catch (err) {
      if (!(err instanceof RangeError)) throw err;
      sx.assert(sx.or(sx.and(lo !== undefined, hi !== undefined, lo! > hi!), sx.and(well, hi! < 1024)), "satisfiable bounds are refused");
      return;
    }
    sx.assert(!(lo !== undefined && hi !== undefined && lo > hi), "contradictory bounds are accepted");
    const ph = p.placeholder;
    sx.assert(sx.and(lo === undefined || ph >= lo, hi === undefined || ph <= hi), "the placeholder is out of bounds");
    const r = parseTwice(sx, p, s);
    sx.observe("r", r.success ? r.value : false);
    const v = denotes(sx, s);
    if (v === null) {
      sx.assert(!r.success, "a string that is not a decimal integer is accepted");
      return;
    }
    const safe = v <= 9007199254740991n && v >= -9007199254740991n;
    if (!safe) sx.cover("unsafe");
    const want = sx.and(
      lo === undefined || v >= BigInt(lo),
      hi === undefined || v <= BigInt(hi),
      !well || v < 1n || v > 1023n,
      kind !== "number" || safe,
    );
    sx.cover(sx.is(want) ? "in" : "out");
    sx.assert(sx.iff(r.success, want), "a value is accepted although out of bounds, or rejected although within");
    if (!r.success) return;
    sx.assert(typeof r.value === (big ? "bigint" : "number"), "the result has the wrong type");
    sx.assert(BigInt(r.value) === v, "the result is not the integer that was typed");
    const back = p.parse(p.format(r.value));
    sx.assert(back.success && back.value === r.value, "a formatted value does not parse back to itself");
  },
};
