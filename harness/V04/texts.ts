import { parseTwice } from "../_lib/again.ts";
import { choice, integer, keyValue, semVer, string, uuid } from "@optique/core/valueparser";
import { allDigits, fill, isHex } from "../_lib/tmpl.ts";

const UUID = ["&1234567-89ab-&def-&123-456789abcde&", "01234567&89ab&cdef&0123&456789abcdef", "0000000%-0000-%000-%000-00000000000%", "fFfFffF%-ffff-%fff-%fff-fffffffffff%", "01234567-89ab-%def-%123-456789abcdef", "01234567-89ab-4def-8123-456789abcde", "&01234567-89ab-4def-8123-456789abcdef", "01234567-89ab-4def-8123-456789abcdef?", "????", ""];
const UOPTS: any[] = [{}, { strict: false }, { allowedVersions: [4] }, { allowedVersions: [1, 7, 7], strict: false }, { allowedVersions: [] }];
const SEMVER = ["&&&&&", "#.#.#", "&#.#.#&", "1.2.3&&", "1.2.3-&&&", "1.2.3+&&&", "1.2.3-a&+&b", "1.0.0-&.&&", "1.0.0-0&", "1.0.0-#a&", "1.0.0+0.0&", "#&#.1.1", "1.#&#.0", "0.0.##", "v&.0.0", "vv1.0.&", "1.0.0--&", "1.0&0", "?1.2.3", "1.2.3?", "90071992547409&1.0.0", "0.900719925474099&.1", "0.0.1&000000000000000", ""];
const SOPTS: any[] = [{}, { type: "object" }, { allowPrefix: true }, { allowPrefix: true, type: "object" }];
const KV: any[] = [{}, { separator: ":" }, { separator: "::" }, { separator: "=", split: "last" }, { separator: "::", split: "last" }, { allowEmptyKey: true }, { allowEmptyValue: false }, { allowEmptyKey: true, allowEmptyValue: false, split: "last", separator: "--" }];
const ident = (sx: any, s: string) => {
  for (let i = 0; i < s.length; i++) if (!sx.is(sx.charIn(s[i], [["0", "9"], ["a", "z"], ["A", "Z"], "-"]))) return false;
  return s.length > 0;
};
/** [core numbers, pre-release, metadata], or null */
function semver(sx: any, s: string): [string[], string | null, string | null] | null {
  let t = s, meta: string | null = null, pre: string | null = null;
  const p = t.indexOf("+");
  if (p >= 0) { meta = t.slice(p + 1); t = t.slice(0, p); }
  const h = t.indexOf("-");
  if (h >= 0) { pre = t.slice(h + 1); t = t.slice(0, h); }
  const num = (q: string) => allDigits(sx, q) && (q.length === 1 || q[0] !== "0");
  const core = t.split(".");
  if (core.length !== 3 || !core.every(num)) return null;
  if (pre !== null && !pre.split(".").every((q) => ident(sx, q) && (!allDigits(sx, q) || num(q)))) return null;
  if (meta !== null && !meta.split(".").every((q) => ident(sx, q))) return null;
  return [core, pre, meta];
}
export default {
  name: "texts",
  bounds: "uuid(): 10 templates of 0-37 characters with up to 4 symbolic ones, 5 option sets; semVer(): 24 templates with up to 5 symbolic printable characters (some any character), 4 option sets; keyValue(): every text of 0-6 (thorough: 0-8) UTF-16 code units and 8 option sets, and choice/integer parts",
  covers: ["uuid accepted", "uuid rejected", "nil or max", "version", "semver accepted", "semver rejected", "unsafe", "pair accepted", "pair rejected", "separator twice"],
  cases(tier: string) {
    const out: any[] = [];
    UUID.forEach((t) => UOPTS.forEach((_, o) => out.push(["uuid", t, o])));
    SEMVER.forEach((t) => SOPTS.forEach((_, o) => out.push(["semver", t, o])));
    KV.forEach((_, o) => { for (let n = 0; n <= (tier === "quick" ? 6 : 8); n++) out.push(["kv", n, o]); });
    for (let n = 1; n <= (tier === "quick" ? 5 : 6); n++) out.push(["kvtyped", n, 0]);
    return out;
  },
  run(sx: any) {
    const [kind, arg, o] = sx.case;
    if (kind === "uuid") {
      const s = fill(sx, "s", arg), opt = UOPTS[o];
      const vp = uuid(opt), r: any = parseTwice(sx, vp, s);
      sx.observe("ok", r.success);
      let form = s.length === 36;
      for (let i = 0; form && i < 36; i++) form = [8, 13, 18, 23].includes(i) ? sx.is(sx.eq(s[i], "-")) : isHex(sx, s[i]);
      let want = form;
      if (form) {
        const low = s.toLowerCase(), digits = low.split("-").join("");
        const special = sx.is(sx.or(sx.eq(digits, "0".repeat(32)), sx.eq(digits, "f".repeat(32))));
        if (special) sx.cover("nil or max");
        else {
          const vs: number[] = opt.allowedVersions?.length > 0 ? opt.allowedVersions : opt.strict === false ? [] : [1, 2, 3, 4, 5, 6, 7, 8];
          if (vs.length > 0 && !vs.some((v) => sx.is(sx.eq(low[14], String(v))))) { want = false; sx.cover("version"); }
          if (want && opt.strict !== false && !sx.is(sx.charIn(low[19], "89ab"))) want = false;
        }
      }
      sx.cover(want ? "uuid accepted" : "uuid rejected");
      sx.assert(r.success === want, want ? "a valid UUID is rejected" : "a malformed or disallowed UUID is accepted");
      if (want) {
        sx.assert(sx.eq(r.value, s), "a UUID is changed");
        sx.assert(vp.parse(vp.format(r.value)).success, "a formatted UUID is rejected");
      }
    } else if (kind === "semver") {
      const s = fill(sx, "s", arg), opt = SOPTS[o];
      const vp: any = semVer(opt), r: any = parseTwice(sx, vp, s);
      sx.observe("ok", r.success);
      const body = opt.allowPrefix && s[0] === "v" ? s.slice(1) : s;
      const q = semver(sx, body);
      let want = q !== null;
      if (q !== null && opt.type === "object" && q[0].some((c) => sx.is(sx.decimal(c) > BigInt(Number.MAX_SAFE_INTEGER)))) { want = false; sx.cover("unsafe"); }
      sx.cover(want ? "semver accepted" : "semver rejected");
      sx.assert(r.success === want, want ? "a valid version is rejected" : "a malformed version is accepted");
      if (want && q !== null) {
        if (opt.type === "object") {
          const v = r.value;
          sx.assert(sx.and(...[v.major, v.minor, v.patch].map((n: any, i: number) => sx.eq(BigInt(n), sx.decimal(q[0][i])))), "a version number is misread");
          sx.assert(sx.eq(v.preRelease ?? null, q[1]), "the pre-release is misread");
          sx.assert(sx.eq(v.metadata ?? null, q[2]), "the metadata are misread");
          sx.assert("preRelease" in v === (q[1] !== null) && "metadata" in v === (q[2] !== null), "absent parts are present");
        } else sx.assert(sx.eq(r.value, body), "a version is changed");
        sx.assert(sx.eq(vp.format(r.value), body), "a version is not formatted as it was typed");
      }
    } else if (kind === "kv") {
      const s = sx.str("s", { len: arg }), opt = KV[o];
      const vp = keyValue(opt), r: any = parseTwice(sx, vp, s);
      sx.observe("ok", r.success);
      const sep: string = opt.separator ?? "=";
      let at = -1;
      for (let i = 0; i + sep.length <= s.length; i++) {
        const hit = sx.is(sx.eq(s.slice(i, i + sep.length), sep));
        if (hit && at >= 0) sx.cover("separator twice");
        if (hit && (at < 0 || opt.split === "last")) at = i;
      }
      const k = at < 0 ? "" : s.slice(0, at), v = at < 0 ? "" : s.slice(at + sep.length);
      const want = at >= 0 && (k.length > 0 || opt.allowEmptyKey === true) && (v.length > 0 || opt.allowEmptyValue !== false);
      sx.cover(want ? "pair accepted" : "pair rejected");
      sx.assert(r.success === want, want ? "a key-value pair is rejected" : "a malformed key-value pair is accepted");
      if (want) {
        sx.assert(sx.eq(r.value, [k, v]), "a pair is split at the wrong place");
        sx.assert(sx.eq(vp.format(r.value), s), "a pair is not formatted as it was typed");
      }
    } else {
      const s = sx.str("s", { len: arg, chars: [["a", "c"], ["0", "9"], "=", "-", " "] });
      const vp = keyValue({ key: choice(["a", "ab", "b=c"]), value: integer({ min: 0, max: 40 }) }), r: any = parseTwice(sx, vp, s);
      sx.observe("ok", r.success);
      const at = s.indexOf("=");
      const k = at < 0 ? "" : s.slice(0, at), v = at < 0 ? "" : s.slice(at + 1);
      const n = integer({ min: 0, max: 40 }).parse(v);
      const want = at >= 0 && (k === "a" || k === "ab") && n.success;
      sx.cover(want ? "pair accepted" : "pair rejected");
      sx.assert(r.success === want, want ? "a typed pair is rejected" : "a malformed typed pair is accepted");
      if (want && n.success) sx.assert(sx.eq(r.value, [k, n.value]), "a typed pair is misread");
    }
  },
};
