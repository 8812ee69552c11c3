import { parseTwice } from "../_lib/again.ts";
import { domain, email, hostname, macAddress } from "@optique/core/valueparser";
import { allDigits, fill, isAlnum, isHex } from "../_lib/tmpl.ts";

const HOST = ["&", "&&", "&&&", "&&&&", "???", "a&.b&", "&*.&a", "*.&&", "*.a.&&", "*.&.*", "1.&.#", "#.#", "#.#.#.#", "_&.&b", "LocalHos&", "*.localhos&", "xn--&&", "a.&.c", "$$.$", "a--&.b", "é&.a"];
const LONG: [string, number, number][] = [["label", 62, 64], ["label", 30, 33], ["whole", 251, 254]];
const MAIL = ["&@&.&&", "&&&@a.b", "a&b@c.d&", "a@&&&", "a@b.&c", "a@&b.c", "&a@b.c&d", '"&&"@a.bc', '"&@&"@a.b', '"a@b"@X.&y', "a.&b@c.d", "a@#.#.#.#", "&.a@b.c", "a@b.c,&@d.e", "a@b.c&d@e.f", '"a,b"@c.d,&@f.g', "é@a.b", " a@b.c&", "a@&.company.com", "&@COMPANY.com", "a@companY.co&", '"a@x.y"@compan&.com', "A@B.&C"];
const NAMED = ["N&m <a@b.c>", '"&&" <a@b.c>', "&<a@b.c>", "N <a@b.c>&", "&&& <A@B.c>", '"a,&" <a@b.c>, d@e.f', "N <&a@b.c>", "<&@b.c>"];
const MAC = ["%%:%:%%:%:%%:&&", "%%-%-%%-%-%%-&%", "%%%%.%%&%.%%%%", "%%%%%&%%%%%%", "0:1-2:3-4:&", "%:%:%:%:%:%:&", "%%:%%:%%:%%:%%", "%%%%.%%%%.%%%"];
const SEPS = [":", "-", ".", "none", "any"], OUT = [undefined, ":", "-", ".", "none"], CASE = [undefined, "preserve", "upper", "lower"];
const isLabel = (sx: any, l: string, us = false) => {
  if (l.length < 1 || l.length > 63 || l[0] === "-" || l[l.length - 1] === "-") return false;
  for (let i = 0; i < l.length; i++) if (!isAlnum(sx, l[i]) && l[i] !== "-" && !(us && l[i] === "_")) return false;
  return true;
};
const lower = (_: any, s: string) => s.toLowerCase(), upper = (_: any, s: string) => s.toUpperCase();
function wantHost(sx: any, s: string, o: any): boolean {
  if (s.length < 1 || s.length > (o.maxLength ?? 253)) return false;
  let rest = s;
  if (o.allowWildcard && s.startsWith("*.")) rest = s.slice(2);
  const labels = rest.split(".");
  if (!labels.every((l) => isLabel(sx, l, o.allowUnderscore))) return false;
  // nor is a dotted number a host name (it would be an address); `*.1.2` is not one
  if (rest.length === s.length && labels.length > 1 && labels.every((l) => allDigits(sx, l))) return false;
  if (o.allowLocalhost === false && lower(sx, rest) === "localhost") return false;
  return true;
}
function wantDomain(sx: any, s: string, o: any): boolean {
  if (s.length > (o.maxLength ?? 253)) return false;
  const labels = s.split(".");
  if (!labels.every((l) => isLabel(sx, l))) return false;
  if (labels.length > 1 && labels.every((l) => allDigits(sx, l))) return false;
  if (labels.length < (o.minLabels ?? 2)) return false;
  if (o.allowSubdomains === false && labels.length > 2) return false;
  if (o.allowedTlds && !o.allowedTlds.some((t: string) => t.toLowerCase() === lower(sx, labels[labels.length - 1]))) return false;
  return true;
}
/** an address without its display name, or null */
function wantMail(sx: any, s: string, o: any): string | null {
  const at = s.lastIndexOf("@");
  if (at < 0) return null;
  const local = s.slice(0, at), dom = s.slice(at + 1);
  if (local.length > 1 && local[0] === '"' && local[local.length - 1] === '"') {
    // quoted text, without quotes inside
    if (local.slice(1, -1).includes('"')) return null;
  } else {
    if (local.length === 0) return null;
    for (const p of local.split(".")) {
      if (p.length === 0) return null;
      for (let i = 0; i < p.length; i++) if (!isAlnum(sx, p[i]) && p[i] !== "_" && p[i] !== "+" && p[i] !== "-") return null;
    }
  }
  const labels = dom.split(".");
  if (labels.length < 2 || !labels.every((l) => isLabel(sx, l))) return null;
  if (labels.length === 4 && labels.every((l) => allDigits(sx, l))) return null;
  if (o.allowedDomains && !o.allowedDomains.some((d: string) => d.toLowerCase() === lower(sx, dom))) return null;
  return o.lowercase ? local + "@" + lower(sx, dom) : s;
}
const HOSTOPTS = [{}, { allowWildcard: true }, { allowUnderscore: true }, { allowLocalhost: false }, { allowWildcard: true, allowLocalhost: false, allowUnderscore: true, maxLength: 9 }];
const DOMOPTS = [{}, { allowSubdomains: false }, { allowedTlds: ["Com", "b"] }, { minLabels: 1, lowercase: true }, { minLabels: 3, maxLength: 5 }];
const MAILOPTS = [{}, { lowercase: true }, { allowedDomains: ["company.com", "B.c", "a.b"] }, { allowMultiple: true }, { allowMultiple: true, allowedDomains: ["company.com", "e.f", "c.d", "f.g", "b.c"], lowercase: true }];
export default {
  name: "names",
  bounds: "hostname(), domain(), email() and macAddress() with 5, 5, 5 and 100 option sets on the listed templates with 1-12 symbolic positions; labels and names of lengths around 63 and 253",
  assumptions: ["display names are checked on 8 templates; a backslash or a quote inside a quoted local part is not generated"],
  covers: ["host", "domain", "mail", "mac", "bad", "long"],
  cases(tier: string) {
    const out: any[] = [];
    for (const t of HOST) for (let o = 0; o < 5; o++) { out.push(["host", t, o]); out.push(["domain", t, o]); }
    for (const [w, a, b] of LONG) for (let n = a; n <= b; n++) for (const k of ["host", "domain"]) out.push([k, [w, n], 0]);
    for (const t of MAIL) for (let o = 0; o < 5; o++) if (o < 3 || t !== "&@&.&&" || tier !== "quick") out.push(["mail", t, o]);
    for (const t of NAMED) for (let o = 0; o < 2; o++) out.push(["named", t, o]);
    for (const t of MAC) for (let s = 0; s < 5; s++) for (let p = 0; p < 5; p++) for (let c = 0; c < 4; c++) if (tier !== "quick" || (s + p + c) % 3 === 0) out.push(["mac", t, s, p, c]);
    return out;
  },
  run(sx: any) {
    const [what, t, o, p, c] = sx.case;
    if (what === "mac") {
      const opts: any = { separator: SEPS[o], outputSeparator: OUT[p], case: CASE[c] };
      for (const k of Object.keys(opts)) if (opts[k] === undefined) delete opts[k];
      const m = macAddress(opts);
      const s = fill(sx, "s", t), r = parseTwice(sx, m, s);
      sx.observe("r", r.success ? r.value : false);
      let oct: string[] | null = null, sep = "";
      const cut = (q: string, n: number) => { const x = []; for (let i = 0; i < q.length; i += n) x.push(q.slice(i, i + n)); return x; };
      for (const q of [":", "-"]) {
        const ps = s.split(q);
        if (ps.length === 6 && ps.every((x) => x.length >= 1 && x.length <= 2)) { oct = ps.map((x) => x.length < 2 ? "0" + x : x); sep = q; break; }
      }
      if (oct === null) {
        const ps = s.split(".");
        if (ps.length === 3 && ps.every((x) => x.length === 4)) { oct = cut(ps.join(""), 2); sep = "."; }
        else if (s.length === 12) { oct = cut(s, 2); sep = "none"; }
      }
      if (oct !== null && (SEPS[o] !== "any" && SEPS[o] !== sep || !oct.every((x) => isHex(sx, x[0]) && isHex(sx, x[1])))) oct = null;
      if (oct === null) { sx.cover("bad"); sx.assert(!r.success, "macAddress() accepts what is not a MAC address in an allowed notation"); return; }
      sx.cover("mac");
      const f = CASE[c] === "upper" ? oct.map((x) => upper(sx, x)) : CASE[c] === "lower" ? oct.map((x) => lower(sx, x)) : oct;
      const os = OUT[p] ?? sep;
      const want = os === "." ? [f[0] + f[1], f[2] + f[3], f[4] + f[5]].join(".") : f.join(os === "none" ? "" : os);
      sx.assert(r.success && sx.is(sx.eq(r.value, want)), "macAddress() does not give the octets in the notation asked for");
      return;
    }
    if (what === "host" || what === "domain") {
      const opts: any = what === "host" ? HOSTOPTS[o] : DOMOPTS[o];
      const q: any = what === "host" ? hostname(opts) : domain(opts);
      let s: string;
      if (typeof t === "string") s = fill(sx, "s", t);
      else {
        sx.cover("long");
        const x = sx.str("x", { len: 1, chars: [["a", "z"], "-", "."] });
        s = t[0] === "label" ? "a".repeat(t[1] - 1) + x + ".com" : ("a".repeat(49) + ".").repeat(5) + "b".repeat(t[1] - 251) + x;
      }
      const r = parseTwice(sx, q, s);
      sx.observe("r", r.success ? r.value : false);
      const ok = what === "host" ? wantHost(sx, s, opts) : wantDomain(sx, s, opts);
      sx.cover(ok ? what : "bad");
      if (!ok) { sx.assert(!r.success, what + "() accepts a name it should reject"); return; }
      sx.assert(r.success, what + "() rejects a valid name");
      sx.assert(sx.eq(r.value, what === "domain" && opts.lowercase ? lower(sx, s) : s), what + "() changes the name");
      return;
    }
    const opts: any = what === "mail" ? MAILOPTS[o] : { allowDisplayName: true, lowercase: o === 1, allowMultiple: t.includes(",") };
    const q: any = email(opts);
    const s = fill(sx, "s", t);
    sx.assume(!s.includes("\\"));
    const r = parseTwice(sx, q, s);
    sx.observe("r", r.success ? r.value : false);
    if (what === "named") {
      if (!r.success) { sx.cover("bad"); return; }
      const vs = opts.allowMultiple ? r.value : [r.value];
      for (const v of vs) sx.assert(wantMail(sx, v, opts) === v, "email() with display names yields something that is not an address");
      const back = q.parse(q.format(r.value));
      sx.assert(back.success && sx.is(sx.eq(back.value, r.value)), "an extracted address does not parse back to itself");
      return;
    }
    const quoted = s.split('"').length - 1;
    let parts = [s];
    if (opts.allowMultiple) {
      // commas outside quotes separate addresses
      parts = [];
      let cur = "", inq = false;
      for (let i = 0; i < s.length; i++) {
        if (s[i] === '"' && (inq || cur.trim() === "")) inq = !inq;
        if (s[i] === "," && !inq) { parts.push(cur); cur = ""; } else cur += s[i];
      }
      parts.push(cur);
      sx.assume(!s.includes("<"));
    }
    const want = parts.map((x) => wantMail(sx, x.trim(), opts));
    sx.assume(quoted % 2 === 0);
    // the contents of quotes are taken as they are
    for (const x of parts) sx.assume(x.split('"').length <= 3);
    if (want.includes(null)) { sx.cover("bad"); sx.assert(!r.success, "email() accepts a malformed or disallowed address"); return; }
    sx.cover("mail");
    sx.assert(r.success, "email() rejects a valid, allowed address");
    sx.assert(sx.eq(r.value, opts.allowMultiple ? want : want[0]), "email() does not return the addresses that were typed");
    const back = q.parse(q.format(r.value));
    sx.assert(back.success && sx.is(sx.eq(back.value, r.value)), "a formatted address does not parse back to itself");
  },
};
