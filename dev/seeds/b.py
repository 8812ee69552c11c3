C="packages/core/src/"
def demo(imports, body):
    return "const M = (p) => import(process.cwd() + '/packages/' + p);\nimport assert from 'node:assert/strict';\n"+"".join(f"const {{ {n} }} = await M('{p}');\n" for p,n in imports.items())+body+"\n"
X="core/dist/index.js"
SEEDS=[
dict(id="C04-command-case",property="C04",needs="a first token that differs from a command name only in letter case",
 breaks="a command is entered for a token that is not one of its names",
 edits=[(C+"primitives.ts","          !commandNames.includes(context.buffer[0])\n","          !commandNames.includes(context.buffer[0]) &&\n            !commandNames.includes(context.buffer[0].toLowerCase())\n")],
 demo=demo({X:"command, or, argument, string, object, constant, parse"},"const p = or(command('go', object({ k: constant(1) })), object({ x: argument(string()) }));\nassert.deepEqual(parse(p, ['go']).value, { k: 1 });\nassert.deepEqual(parse(p, ['Go']).value, { x: 'Go' });")),
dict(id="C03-shared-prefix",property="C03",needs="or() branches that share an option, where the second branch can only take as many tokens but not the same ones",
 breaks="or() switches to a branch that did not consume the same input, so a token of the first branch is lost",
 edits=[(C+"constructs.ts","""            checkResult.consumed.length === sharedInput.buffer.length &&
            checkResult.consumed.every((c, idx) =>
              c === sharedInput.buffer[idx]
            );""","""            checkResult.consumed.length >= 1;""",0)],
 demo=demo({X:"option, or, integer, string, object, parse"},"const p = or(object({ s: option('-s', string()), a: option('-a', string()) }), object({ s: option('-s', string()), b: option('-b', string()) }));\nassert.equal(parse(p, ['-s', 'x', '-b', 'y']).success, true);\nfor (const a of [['-s', 'x', '-a', 'z', '-b', 'y'], ['-a', 'z', '-s', 'x', '-b', 'y']]) assert.equal(parse(p, a).success, false, a.join());")),
dict(id="V01-float-min-inf",property="V01",needs="float() with allowInfinity and a minimum, given -Infinity (or an overflowing literal such as -1e999)",
 breaks="negative infinity is accepted although below the minimum",
 edits=[(C+"valueparser.ts","      if (options.min != null && value < options.min) {\n        return {\n          success: false,\n          error: options.errors?.belowMinimum\n            ? (typeof options.errors.belowMinimum === \"function\"\n              ? options.errors.belowMinimum(value, options.min)\n              : options.errors.belowMinimum)\n            : message`Expected a value greater than or equal to ${\n              text(options.min.toLocaleString(\"en\"))\n            }, but got ${input}.`,\n        };\n      } else if (options.max != null && value > options.max) {\n        return {\n          success: false,\n          error: options.errors?.aboveMaximum\n            ? (typeof options.errors.aboveMaximum === \"function\"\n              ? options.errors.aboveMaximum(value, options.max)\n              : options.errors.aboveMaximum)\n            : message`Expected a value less than or equal to ${\n              text(options.max.toLocaleString(\"en\"))\n            }, but got ${input}.`,\n        };\n      }\n      return { success: true, value };\n    },\n    format(value: number): string {\n      return value.toString();\n    },\n  };\n}\n\n/**\n * A canonical file size",
  "PLACE")],
 demo=demo({X:"float"},"const p = float({ allowInfinity: true, min: 0 });\nfor (const s of ['-1', '-Infinity', '-1e999']) assert.equal(p.parse(s).success, false, s);\nassert.equal(p.parse('Infinity').success, true);")),
dict(id="V03-cidr-mapped",property="V03",needs="an IPv4-mapped IPv6 network with a prefix length below 96 and a forbidden embedded IPv4 address",
 breaks="cidr() accepts a forbidden IPv4-mapped address when the prefix is short",
 edits=[(C+"valueparser.ts",'if (version === "both" && ipVersion === 6 && normalizedIp !== null) {','if (\n        version === "both" && ipVersion === 6 && normalizedIp !== null &&\n        prefix >= 96\n      ) {')],
 demo=demo({X:"cidr"},"const p = cidr({ version: 'both', ipv4: { allowPrivate: false } });\nfor (const n of [128, 96, 95, 8, 0]) assert.equal(p.parse('::ffff:10.0.0.1/' + n).success, false, String(n));\nassert.equal(p.parse('::ffff:9.0.0.1/96').success, true);")),
dict(id="V03-compress-last",property="V03",needs="an IPv6 address with two zero runs of the same maximal length",
 breaks="the second of two equally long zero runs is compressed, so the result is not the canonical (RFC 5952) form",
 edits=[(C+"valueparser.ts","      if (currentLength > longestLength) {\n        longestStart","      if (currentLength >= longestLength) {\n        longestStart")],
 demo=demo({X:"ipv6"},"assert.equal(ipv6().parse('1:0:0:2:0:0:3:4').value, '1::2:0:0:3:4');\nassert.equal(ipv6().parse('1:0:2:0:0:3:0:4').value, '1:0:2::3:0:4');")),
dict(id="C08-async-terminator",property="C08",needs="an object() with an async value parser, `--` followed by something that looks like an option",
 breaks="the asynchronous parser forgets the options terminator after one field",
 edits=[(C+"constructs.ts","            optionsTerminated: result.next.optionsTerminated,\n            state: {\n              ...(currentContext.state as Record<string | symbol, unknown>),","            state: {\n              ...(currentContext.state as Record<string | symbol, unknown>),",1)],
 demo=demo({X:"option, argument, multiple, string, object, parse, parseAsync"},"""
const as = { ...string(), mode: 'async', parse: async (s) => string().parse(s), format: (s) => s };
const g = (v) => object({ o: option('-o'), xs: multiple(argument(v)) });
for (const a of [['-o'], ['a', '-o'], ['--', '-o'], ['--', 'a', '-o']]) assert.deepEqual((await parseAsync(g(as), a)).value, parse(g(string()), a).value, a.join());""")),
]
# the float edit, kept short
s=[x for x in SEEDS if x["id"]=="V01-float-min-inf"][0]
t=open("/repo/"+C+"valueparser.ts").read(); o=s["edits"][0][1]; assert t.count(o)==1
s["edits"][0]=(s["edits"][0][0],o,o.replace("options.min != null && value < options.min","options.min != null && value < options.min && Number.isFinite(value)",1))
