import { parseTwice } from "../_lib/again.ts";
import { portRange, socketAddress } from "@optique/core/valueparser";
import { allDigits, canonical6, fill, groupsOf, isAlnum, octetsOf } from "../_lib/tmpl.ts";

const SEPS = [":", "-", " ", "@@", ".", "x"];
// the separator is written ~
const T = ["&~#", "a~&&", "a&~#", "a~##&", "&&&~8", "a~~#", "a~", "~#", "&a~#&", "a-b~#", "a.b~#~#", "1.2.3.#~#&", "#.#.#.#~1", "1.2.3~#", "0#.1.1.1~1", "0x&~1", " a ~ # ", "a ~&8", "[::%]~#", "[::%&~#", "[1::%&]~#", "::%~#", "[::ffff:1.2.3.#]~9", "[&]~1", "a~6553#", "a~0#", "a~#&~", "&&&"];
const HOSTS = ["a", "a.b", "a-b", "a-", "1.2.3.4", "::1", "127.0.0.1", "x.x"];
const KINDS: any[] = [{}, { type: "hostname" }, { type: "ip" }, { type: "ip", version: 4, ipv4: { allowLoopback: false } }, { type: "ip", version: 6 }, { type: "both", hostname: { allowUnderscore: true, maxLength: 5 }, ipv4: { allowPrivate: false, allowLoopback: false } }];
const R = ["&~&", "#~#", "##~#", "#~##&", "&&~&", "#&~#", "~#", "#~", "#~#~#", " # ~ # ", " ##", "6553#~6553#", "#&", "102#~102#"];
const isLabel = (sx: any, l: string, us: boolean) => {
  if (l.length < 1 || l.length > 63 || l[0] === "-" || l[l.length - 1] === "-") return false;
  for (let i = 0; i < l.length; i++) if (!isAlnum(sx, l[i]) && l[i] !== "-" && !(us && l[i] === "_")) return false;
  return true;
};
const priv = (o: number[]) => o[0] === 10 || o[0] === 172 && o[1] >= 16 && o[1] <= 31 || o[0] === 192 && o[1] === 168;
/** the canonical form of a host, or null; strict: sure to be wrong / sure to be right */
function wantHost(sx: any, s: string, k: any): string | null {
  const type = k.type ?? "both", v = k.version ?? "both";
  const v4ok = (o: number[]) => !(k.ipv4?.allowPrivate === false && priv(o)) && !(k.ipv4?.allowLoopback === false && o[0] === 127);
  if (type !== "hostname") {
    const o = v === 6 ? null : octetsOf(sx, s);
    if (o !== null) return v4ok(o) ? s : null;
    const g = v === 4 ? null : groupsOf(sx, s);
    if (g !== null) {
      if (v !== 6 && g.slice(0, 5).every((x) => x === 0) && g[5] === 0xffff && !v4ok([Math.floor(g[6] / 256), g[6] % 256, Math.floor(g[7] / 256), g[7] % 256])) return null;
      return canonical6(sx, g);
    }
    if (type === "ip") return null;
  }
  if (s.length > (k.hostname?.maxLength ?? 253)) return null;
  const labels = s.split(".");
  if (!labels.every((l) => isLabel(sx, l, k.hostname?.allowUnderscore === true))) return null;
  if (labels.length > 1 && labels.every((l) => allDigits(sx, l))) return null;
  // numbers that some resolvers read as addresses: 0x7f000001, 017700000001, 0x7f.1
  const num = (l: string) => allDigits(sx, l) || l.length > 2 && l[0] === "0" && (l[1] === "x" || l[1] === "X") && [...l.slice(2)].every((c) => sx.is(sx.charIn(c, [["0", "9"], ["a", "f"], ["A", "F"]])));
  if (labels.length <= 4 && labels.every(num) && labels.some((l) => l.length > 1 && l[0] === "0") && !labels.some((l) => l[0] === "0" && l.length > 1 && l[1] !== "x" && l[1] !== "X" && (l.includes("8") || l.includes("9")))) return null;
  return s;
}
function wantPort(sx: any, s: string, lo = 1, hi = 65535): number | null {
  if (!allDigits(sx, s)) return null;
  const n = Number(sx.decimal(s));
  return n >= lo && n <= hi ? n : null;
}
export default {
  name: "sockets",
  bounds: "socketAddress() with 6 separators, 6 kinds of host and 3 port policies, and portRange() with 6 separators and 4 option sets, on the listed templates with 1-5 symbolic positions; round trips of 8 hosts and every port",
  assumptions: [],
  covers: ["addr", "default", "bad", "range", "single", "badrange", "round"],
  cases(tier: string) {
    const out: any[] = [];
    (tier === "quick" ? T : [...T, "&&&&"]).forEach((t, n) => { for (let s = 0; s < 6; s++) for (let k = 0; k < 6; k++) for (let p = 0; p < 3; p++) if (tier !== "quick" || (n + s + k + p) % (t === "&&&&" ? 9 : 3) === 0) out.push(["sock", t, s, k, p]); });
    for (const h of HOSTS) for (let s = 0; s < 6; s++) for (let k = 0; k < 3; k++) out.push(["round", h, s, k, 0]);
    for (const t of R) for (let s = 0; s < 6; s++) for (let o = 0; o < 4; o++) if (tier !== "quick" || (s + o) % 2 === 0) out.push(["range", t, s, o]);
    return out;
  },
  run(sx: any) {
    const [what, t, sep, k, p] = sx.case;
    const S = SEPS[sep];
    if (what === "range") {
      const opts: any = { separator: S, ...[{}, { allowSingle: true }, { type: "bigint", min: 3n }, { disallowWellKnown: true, allowSingle: true, max: 65533 }][k] };
      const q: any = portRange(opts), s = fill(sx, "s", t.replaceAll("~", S)), r = parseTwice(sx, q, s);
      sx.observe("r", r.success ? r.value : false);
      const lo = k === 2 ? 3 : k === 3 ? 1024 : 1, hi = k === 3 ? 65533 : 65535;
      const x = s.trim(), i = x.indexOf(S);
      let a: number | null = null, b: number | null = null;
      if (i >= 0) { a = wantPort(sx, x.slice(0, i), lo, hi); b = wantPort(sx, x.slice(i + S.length), lo, hi); }
      else if (opts.allowSingle) { a = b = wantPort(sx, x, lo, hi); sx.cover("single"); }
      if (a === null || b === null || a > b) { sx.cover("badrange"); sx.assert(!r.success, "portRange() accepts a malformed, disallowed or reversed range"); return; }
      sx.cover("range");
      sx.assert(r.success, "portRange() rejects a valid range");
      sx.assert(sx.and(Number(r.value.start) === a, Number(r.value.end) === b), "portRange() does not return the ports that were typed");
      sx.assert(typeof r.value.start === (k === 2 ? "bigint" : "number"), "portRange() returns the other number type");
      const back = q.parse(q.format(r.value));
      sx.assert(back.success && sx.is(sx.eq(back.value, r.value)), "a formatted range does not parse back to itself");
      return;
    }
    const kind = KINDS[k];
    const opts: any = { separator: S, host: kind };
    if (p >= 1) opts.defaultPort = 7;
    if (p === 2) opts.requirePort = true;
    const q: any = socketAddress(opts);
    if (what === "round") {
      const port = sx.int("port", 1, 65535);
      const h = wantHost(sx, t, kind);
      if (h === null) return;
      sx.cover("round");
      const back = q.parse(q.format({ host: h, port }));
      sx.observe("back", back.success ? back.value : false);
      sx.assert(back.success && sx.is(sx.and(sx.eq(back.value.host, h), back.value.port === port)), "a formatted socket address does not parse back to itself");
      return;
    }
    const s = fill(sx, "s", t.replaceAll("~", S)), r = parseTwice(sx, q, s);
    sx.observe("r", r.success ? r.value : false);
    // every reading of the text as host, separator and port, or as a host alone
    const reads: [string, number][] = [];
    const x = s.trim();
    let portOnly = false;
    for (let i = 0; i + S.length <= s.length; i++) {
      if (s.slice(i, i + S.length) !== S) continue;
      const pp = wantPort(sx, s.slice(i + S.length).trim());
      if (pp === null) continue;
      let h = s.slice(0, i).trim();
      if (S === ":" && h.startsWith("[") && h.endsWith("]")) { h = h.slice(1, -1); if (groupsOf(sx, h) === null) continue; }
      else if (S === ":" && h.includes(":")) continue;
      const hh = wantHost(sx, h, kind);
      if (hh !== null) reads.push([hh, pp]);
    }
    if (p === 1) {
      let h = x;
      if (S === ":" && h.startsWith("[") && h.endsWith("]")) { h = h.slice(1, -1); if (groupsOf(sx, h) === null) h = "!"; }
      const hh = wantHost(sx, h, kind);
      if (hh !== null) { reads.push([hh, 7]); portOnly = true; }
    }
    if (!r.success) {
      sx.cover("bad");
      // a lone reading with a port must be found; without one, a mistyped port may be suspected
      sx.assert(reads.length === 0 || reads.length === 1 && portOnly && s.includes(S), "a valid socket address is rejected");
      return;
    }
    sx.cover(portOnly ? "default" : "addr");
    sx.assert(reads.some(([h, n]) => sx.is(sx.and(sx.eq(r.value.host, h), r.value.port === n))), "socketAddress() returns a host and port that were not typed");
    const back = q.parse(q.format(r.value));
    sx.assert(back.success && sx.is(sx.and(sx.eq(back.value.host, r.value.host), back.value.port === r.value.port)), "a formatted socket address does not parse back to itself");
  },
};
