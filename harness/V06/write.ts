import { parseTwice } from "../_lib/again.ts";
import { choice, cidr, cron, domain, email, fileSize, float, hostname, integer, ip, ipv4, ipv6, json, keyValue, macAddress, port, portRange, semVer, socketAddress, string, uuid } from "@optique/core/valueparser";
import { fill } from "../_lib/tmpl.ts";

const P: [string, () => any, string[]][] = [
  ["string", () => string(), ["", "?", "???"]],
  ["integer", () => integer(), ["#", "-##", "&&&", "0##", "+##"]],
  ["bigint", () => integer({ type: "bigint" }), ["-#", "##################", "&&&"]],
  ["float", () => float(), ["#.#", "-#.##", "&&&", ".##", "##.", "#e#", "-0"]],
  ["port", () => port(), ["#", "6553#", "####"]],
  ["portbig", () => port({ type: "bigint" } as any), ["##", "655##"]],
  ["size", () => fileSize(), ["##", "#KB", "#.#MB", "##GiB", "##&"]],
  ["ipv4", () => ipv4(), ["#.#.#.##", "1##.#.2#.0", "&.0.0.1"]],
  ["ipv6", () => ipv6(), ["::%", "%::%%", "1:%:0:0:%:0:0:%", "::ffff:1.2.3.#", "%:0:%::"]],
  ["ip", () => ip(), ["1.2.3.#", "::%%", "::ffff:1.#.3.4"]],
  ["cidr", () => cidr(), ["1.2.3.#/##", "::%/##", "1:%::/6#", "::ffff:1.2.3.4/1##"]],
  ["mac", () => macAddress(), ["0%:00:00:00:00:%0", "0%-00-00-00-00-00", "0%00.0000.00%0", "0%000000000%"]],
  ["mac2", () => macAddress({ outputSeparator: ".", case: "lower" } as any), ["A%:00:00:00:00:0%", "0%0000000000"]],
  ["mac3", () => macAddress({ outputSeparator: "none", case: "upper" } as any), ["a%:00:00:00:00:0%", "0%00.0000.000%"]],
  ["hostname", () => hostname(), ["&&", "a&b.&c", "$&.b"]],
  ["domain", () => domain(), ["$&.$$", "a&.com", "A$.cOm."]],
  ["domainlow", () => domain({ lowercase: true } as any), ["$&.$$", "A$.cOm"]],
  ["email", () => email(), ["&&@a.co", "a&b@$.com", "\"&&\"@a.io", "a@$&.co"]],
  ["emails", () => email({ allowMultiple: true } as any), ["a&@b.co,c@d.co", "$@b.co&c@d.co", "a@b.co,&"]],
  ["emailname", () => email({ allowDisplayName: true, lowercase: true } as any), ["$& <$@b.cO>", "\"&\" <a@b.co>"]],
  ["socket", () => socketAddress(), ["$:##", "1.2.3.#:8#", "a&b:80", "[::%]:8#"]],
  ["socketdef", () => socketAddress({ defaultPort: 80 } as any), ["$&", "a:8#", "1.2.3.#", "[::%]"]],
  ["range", () => portRange(), ["##-##", "1-##", "#&9"]],
  ["rangeone", () => portRange({ allowSingle: true } as any), ["##", "#-##"]],
  ["uuid", () => uuid({ strict: false }), ["0000000%-0000-%000-%000-00000000000%", "FFFFFFF%-ffff-4fff-8fff-fffffffffff%"]],
  ["semver", () => semVer(), ["#.#.#", "1.0.0-&&", "1.0.0-a+&&", "1.0.0+&"]],
  ["semverv", () => semVer({ allowPrefix: true } as any), ["v#.1.0", "&1.0.0"]],
  ["semverobj", () => semVer({ type: "object" } as any), ["#.#.#", "1.0.0-&&", "1.0.0-a+&&", "1.0.0+&"]],
  ["semverobjv", () => semVer({ type: "object", allowPrefix: true } as any), ["v#.1.0", "&1.0.0-&"]],
  ["cron", () => cron(), ["# # * * *", "*/# 0 1-# * *", "0 0 L * #", "#  0 * *  1-#"]],
  ["cronq", () => cron({ quartz: true, seconds: true, years: true } as any), ["# 0 0 & * #L 20##", "0 0 0 #W * & *", "0 0 0 & * $$$ *", "0 0 0 & * #&# *"]],
  ["kv", () => keyValue(), ["&&&&", "a=??"]],
  ["kvlast", () => keyValue({ split: "last" } as any), ["&&&&", "a=&=b"]],
  ["kvempty", () => keyValue({ allowEmptyKey: true, separator: "::" } as any), ["::&&", "&::&&", "&&&&"]],
  ["kvint", () => keyValue({ value: integer() } as any), ["a=##", "&=-#"]],
  ["choice", () => choice(["Auto", "b"], { caseInsensitive: true } as any), ["&", "&&&&"]],
  ["json", () => json(), ["##", "\"&&\"", "[#,&]", "{\"&\":#}"]],
];
function eqv(sx: any, a: any, b: any): any {
  if (typeof a !== typeof b) return false;
  if (a !== null && typeof a === "object") {
    if (b === null) return false;
    const ks = Object.keys(a);
    return Array.isArray(a) === Array.isArray(b) && ks.length === Object.keys(b).length && sx.and(...ks.map((k) => eqv(sx, a[k], b[k])));
  }
  return sx.eq(a, b);
}
export default {
  name: "write",
  bounds: "37 configurations of the 20 value parsers whose notation is read by the library itself, each on 1-7 templates with 1-18 symbolic characters (any printable, digit, hexadecimal digit or letter; string() any character)",
  assumptions: ["a fraction has up to 15 digits"],
  covers: P.map((p) => p[0]),
  cases: () => P.flatMap(([n, , ts], i) => ts.map((t) => [i, t, n])),
  run(sx: any) {
    const [i, tmpl] = sx.case;
    const s = fill(sx, "s", tmpl);
    const vp = P[i][1]();
    const r: any = parseTwice(sx, vp, s);
    sx.observe("ok", r.success);
    if (!r.success) return;
    sx.cover(P[i][0]);
    const text = vp.format(r.value);
    sx.assert(typeof text === "string", "format() does not give a text");
    const back: any = vp.parse(text);
    sx.assert(back.success, "a formatted value is rejected");
    if (P[i][0] === "size") return; // sizes are written in the largest fitting unit; V01 states how far off that may be
    sx.assert(eqv(sx, back.value, r.value), "a formatted value reads back differently");
    if (vp.validate) sx.assert(vp.validate(r.value).success && eqv(sx, vp.validate(r.value).value, r.value), "a parsed value is refused as a fallback value");
    if (vp.normalize) sx.assert(eqv(sx, vp.normalize(r.value), r.value), "a parsed value is not in normal form");
  },
};
