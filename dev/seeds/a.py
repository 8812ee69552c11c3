C="packages/core/src/"
def demo(imports, body):
    return "const M = (p) => import(process.cwd() + '/packages/' + p);\nimport assert from 'node:assert/strict';\n"+"".join(f"const {{ {n} }} = await M('{p}');\n" for p,n in imports.items())+body+"\n"
P="core/dist/parser.js"; X="core/dist/index.js"
SEEDS=[
dict(id="V03-link-local",property="V03",needs="an IPv6 address in fe90::-febf:: with allowLinkLocal: false",
 breaks="link-local addresses outside fe80::/12 are accepted although forbidden",
 edits=[(C+"valueparser.ts","(firstGroup & 0xffc0) === 0xfe80","(firstGroup & 0xfff0) === 0xfe80")],
 demo=demo({X:"ipv6"},"const p = ipv6({ allowLinkLocal: false });\nfor (const a of ['fe80::1','fe9a::1','febf:1::2']) assert.equal(p.parse(a).success, false, a);\nassert.equal(p.parse('fec0::1').success, true);")),
dict(id="C02-slash-colon",property="C02",needs="a slash option joined to a value that itself contains a colon, e.g. /o:a:b",
 breaks="the joined value is cut at its second colon instead of being passed on as a whole",
 edits=[(C+"primitives.ts","""        const rawInput = context.buffer[0].slice(prefix.length);
        if (valueParser == null) {""","""        const rawInput = prefix.startsWith("/")
          ? context.buffer[0].split(":")[1]
          : context.buffer[0].slice(prefix.length);
        if (valueParser == null) {""")],
 demo=demo({X:"option, string, object, parse"},"const p = object({ o: option('/o', '--out', string()) });\nfor (const v of ['x', 'C:', 'a:b', ':']) assert.deepEqual(parse(p, ['/o:' + v]), parse(p, ['/o', v]), v);")),
dict(id="C08-multiple-async",property="C08",needs="multiple() with max around an async parser and more items than max on the command line, followed by a positional that could take them",
 breaks="the asynchronous parser opens one item too many, so it rejects what the synchronous one leaves to the next parser",
 edits=[(C+"modifiers.ts","    const canOpenFreshItem = context.state.length < max;","    const canOpenFreshItem = context.state.length <= max;",1)],
 demo=demo({X:"argument, multiple, string, object, parse, parseAsync, optional"},"""
const as = { ...string(), mode: 'async', parse: async (s) => string().parse(s), format: (s) => s };
const g = (v) => object({ xs: multiple(argument(v), { max: 2 }), y: optional(argument(string())) });
for (const a of [[], ['a'], ['a', 'b'], ['a', 'b', 'c']]) {
  assert.deepEqual((await parseAsync(g(as), a)).value, parse(g(string()), a).value, a.join());
}""")),
dict(id="V01-bigint-plus",property="V01",needs="an integer between 2^53 and its decimal neighbours with a leading minus sign",
 breaks="negative integers below the smallest safe integer are accepted and silently rounded",
 edits=[(C+"valueparser.ts","if (n > maxSafe || n < minSafe) {","if (n > maxSafe || n < minSafe - 2n) {")],
 demo=demo({X:"integer"},"for (const s of ['-9007199254740991', '-9007199254740992', '-9007199254740993', '-9007199254740999']) { const r = integer().parse(s); if (r.success) assert.equal(String(r.value), s); }")),
dict(id="C01-flag-bundle",property="C01",needs="a required flag given twice inside one bundle of short options, e.g. -fvf",
 breaks="a repeated flag is accepted when the repetition is part of a bundle",
 edits=[(C+"primitives.ts","""        if (!isShortOptionBundle(context.buffer[0], shortOption)) continue;
        if (context.state?.success) {""","""        if (!isShortOptionBundle(context.buffer[0], shortOption)) continue;
        if (context.state?.success && context.buffer[0][2] === shortOption[1]) {""")],
 demo=demo({X:"flag, option, object, parse"},"const p = object({ f: flag('-f'), v: option('-v') });\nassert.equal(parse(p, ['-fv']).success, true);\nfor (const a of [['-ff'], ['-fvf'], ['-f', '-fv'], ['-f', '-f']]) assert.equal(parse(p, a).success, false, a.join());")),
]
