import { parseTwice } from "../_lib/again.ts";
import { cidr, ip, ipv4, ipv6 } from "@optique/core/valueparser";
import { canonical6, fill, groupsOf, octetsOf } from "../_lib/tmpl.ts";

const T4 = ["?", "???????", "#.?.#.?", "###.#.#.#", "#.###.#.##", "##.#.###.#", "#.#.#.###", "##?#.#.#", "#.#.#.#?", "?#.#.#.#", "#.#.##.####", "#.#.#", "#.#.#.#.#"];
const C4 = ["1#.#.#.#", "17#.##.1.1", "19#.168.1.#", "12#.#.#.#", "169.25#.#.1", "2##.#.#.#", "25#.255.255.25#", "#.#.0.0"];
const T6 = ["?", "??", "???", "????", "%?:?", "::??", "%::?", "%%%%::%%%%", "::%%%%%", "1::?:2", "%:%:%:%:%:%:%:%", "1:%:0:0:%:0:0:%", "0:0:%:2:%:0:0:0", "1:2:3:4:5:6:%?", "%:2:3:4:5:6:7::", "::2:3:4:5:6:7:%", "1:2:3:4::5:6:7:%", "::#.#.#.#", "::ffff:#.#.#.#?", "::ff%%:1#.#.#.1", "%:2:3:4:5:6:#.#.#.#", "1.2.3.4::%", "::1?1.2.3.4", "0%:0:00%::%"];
const C6 = ["::%", "f%%%::1", "F%80::", "::ffff:1#.#.#.#", "::ffff:%%%%:1", "::fffe:7f00:1"];
const CD = ["1.2.3.4/?", "1.2.3.4/??", "1.2.3.4/###", "1.2.3.4/#?#", "#.#.#.#/#", "%::/?", "1::/##", "1::/###", "::%/#/#", "1.2.3.4?#", "?/#", "/#", "%::%/0#"];
const CLASSES4: [string, (o: number[]) => boolean][] = [
  ["allowPrivate", (o) => o[0] === 10 || o[0] === 172 && o[1] >= 16 && o[1] <= 31 || o[0] === 192 && o[1] === 168],
  ["allowLoopback", (o) => o[0] === 127],
  ["allowLinkLocal", (o) => o[0] === 169 && o[1] === 254],
  ["allowMulticast", (o) => o[0] >= 224 && o[0] <= 239],
  ["allowBroadcast", (o) => o[0] === 255 && o[1] === 255 && o[2] === 255 && o[3] === 255],
  ["allowZero", (o) => o[0] === 0 && o[1] === 0 && o[2] === 0 && o[3] === 0],
];
const zeroTo = (g: number[], n: number) => g.slice(0, n).every((x) => x === 0);
const CLASSES6: [string, (g: number[]) => boolean][] = [
  ["allowLoopback", (g) => zeroTo(g, 7) && g[7] === 1],
  ["allowLinkLocal", (g) => g[0] >= 0xfe80 && g[0] <= 0xfebf],
  ["allowUniqueLocal", (g) => g[0] >= 0xfc00 && g[0] <= 0xfdff],
  ["allowMulticast", (g) => g[0] >= 0xff00],
  ["allowZero", (g) => zeroTo(g, 8)],
];
const only = (cs: [string, any][], k: number) => Object.fromEntries(cs.map(([n], i) => [n, k < 0 ? true : i !== k]));
export default {
  name: "ip",
  bounds: "ipv4(), ipv6(), ip() and cidr() on strings of 0-4 characters and on the listed templates with 1-8 symbolic positions; every address class disallowed in turn; cidr prefixes with symbolic bounds",
  assumptions: [],
  covers: ["4", "6", "mapped", "class", "cidr", "bad"],
  cases(tier: string) {
    const out: any[] = [];
    for (const t of T4) out.push(["v4", t, -1]);
    for (const t of C4) for (let k = 0; k < 6; k++) out.push(["v4", t, k]);
    for (const t of T6) out.push(["v6", t, -1]);
    for (const t of C6) for (let k = 0; k < 5; k++) out.push(["v6", t, k]);
    for (const t of ["#.#.#.#", "1#.#.1.1", "::%", "::ffff:1#.#.#.1", "::ffff:%%%%:101", "fe8%::1", "?.?"]) for (const v of [4, 6, "both"]) for (const k of [-1, 0, 1, 2, 5]) out.push(["ip", t, k, v]);
    // addresses that look like IPv4-mapped ones, but for one group
    for (const t of ["::%:ffff:a00:1", "%::ffff:a00:1", "0:0:%:0:0:ffff:7f00:1", "0:%:0:%:0:ffff:a9fe:1", "::fff%:a00:1", "::fff%:0:0:a00:1", "::%fff:10.1.1.1", "::ffff:0:7f00:1", "::ffff:ffff:a00:1"]) for (const k of [0, 1, 2]) out.push(["ip", t, k, "both"], ...(k === 0 ? [["cidr", t + "/9#", 0, "both"]] : []));
    for (const t of CD) for (const v of [4, 6, "both"]) out.push(["cidr", t, -1, v]);
    for (const t of ["::ffff:1#.1.1.1/9#", "1#.1.1.1/#", "fe8%::/10"]) for (const k of [0, 1, 2]) out.push(["cidr", t, k, "both"]);
    for (let n = 0; n <= (tier === "quick" ? 3 : 5); n++) for (const what of ["v4", "v6", "ip", "cidr"]) out.push([what, "&".repeat(n), -1, "both"]);
    if (tier !== "quick") for (const t of ["%%%%:%:%:%:%:%:%:%%%%", "%:%:%:%:%:%:#.#.#.#", "###.###.#.#", "#.#.###.###", "::%:%:%:%:%:%", "%:%::%:%:%", "???.???"]) for (const what of ["v4", "v6", "ip"]) out.push([what, t, -1, "both"]);
    return out;
  },
  run(sx: any) {
    const [what, t, k, version] = sx.case;
    let s = fill(sx, "s", t);
    const o4 = only(CLASSES4, k), o6 = only(CLASSES6, k);
    let p: any, prefixText: string | null = null, lo: number | undefined, hi: number | undefined;
    const whole = s;
    if (what === "v4") p = ipv4(o4);
    else if (what === "v6") p = ipv6(o6);
    else if (what === "ip") p = ip({ version, ipv4: o4, ipv6: o6 });
    else {
      if (t.includes("##")) { lo = sx.int("lo", 0, 32); hi = sx.int("hi", 0, 32); if (lo! > hi!) return; }
      p = cidr({ version, minPrefix: lo, maxPrefix: hi, ipv4: o4, ipv6: o6 } as any);
      const i = s.lastIndexOf("/");
      prefixText = i < 0 ? "" : s.slice(i + 1);
      if (i >= 0) s = s.slice(0, i);
    }
    const r = parseTwice(sx, p, whole);
    sx.observe("r", r.success ? r.value : false);
    const v4 = what !== "v6" && version !== 6 || what === "v4", v6 = what === "v6" || what !== "v4" && version !== 4;
    let value: string | null = null, ver = 4;
    const o = v4 ? octetsOf(sx, s) : null;
    if (o !== null) {
      if (!CLASSES4.some(([, f], i) => i === k && f(o))) value = o.join(".");
      else sx.cover("class");
      sx.cover("4");
    } else if (v6) {
      const g = groupsOf(sx, s);
      if (g !== null) {
        sx.cover("6");
        ver = 6;
        let ok = !CLASSES6.some(([, f], i) => i === k && f(g));
        // an address both parsers may carry must not evade the IPv4 restrictions in its mapped form
        if (v4 && zeroTo(g, 5) && g[5] === 0xffff) {
          sx.cover("mapped");
          const m = [Math.floor(g[6] / 256), g[6] % 256, Math.floor(g[7] / 256), g[7] % 256];
          if (CLASSES4.some(([, f], i) => i === k && f(m))) ok = false;
        }
        if (ok) value = canonical6(sx, g);
        else sx.cover("class");
      }
    }
    if (prefixText !== null && value !== null) {
      // a prefix: digits without leading zeros, in range
      const okp = sx.is(prefixText.length <= 3) && prefixText.length > 0 && [...prefixText].every((c) => sx.is(sx.charIn(c, [["0", "9"]]))) && (prefixText.length === 1 || prefixText[0] !== "0");
      if (!okp) value = null;
      else {
        const n = Number(sx.decimal(prefixText));
        if (n > (ver === 4 ? 32 : 128) || lo !== undefined && n < lo || hi !== undefined && n > hi) value = null;
        else {
          sx.cover("cidr");
          sx.assert(r.success, "a valid CIDR block is rejected");
          sx.assert(sx.and(r.value.prefix === n, r.value.version === ver, sx.eq(r.value.address, value)), "a CIDR block is misread");
          const back = p.parse(p.format(r.value));
          sx.assert(back.success && sx.is(sx.eq(back.value, r.value)), "a formatted CIDR block does not parse back to itself");
          return;
        }
      }
    }
    if (value === null) {
      sx.cover("bad");
      sx.assert(!r.success, "a malformed or disallowed address is accepted");
      return;
    }
    sx.assert(r.success, "a valid, allowed address is rejected");
    sx.assert(sx.eq(r.value, value), "the result is not the canonical form of the address that was typed");
    const back = p.parse(p.format(r.value));
    sx.assert(back.success && sx.is(sx.eq(back.value, r.value)), "a formatted address does not parse back to itself");
  },
};
