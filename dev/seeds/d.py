C="packages/core/src/"
def demo(imports, body):
    return "const M = (p) => import(process.cwd() + '/packages/' + p);\nimport assert from 'node:assert/strict';\n"+"".join(f"const {{ {n} }} = await M('{p}');\n" for p,n in imports.items())+body+"\n"
X="core/dist/index.js"
SEEDS=[
dict(id="P01-falsy-source",property="P01",needs="an environment variable or configuration entry that is zero, false or empty, under a prompt",
 breaks="a value from a source that is 0, false or empty is asked for again",
 edits=[("packages/prompt/src/index.ts","            if (!unwrapped.success) {\n              return finalizePrompt();","            if (!unwrapped.success || !unwrapped.value) {\n              return finalizePrompt();",0)],
 demo=demo({X:"object, option, integer, string, runWith","env/dist/index.js":"createEnvContext, bindEnv","inquirer/dist/index.js":"prompt"},"""
for (const [text, vp, want, type] of [['5', integer(), 5, 'number'], ['0', integer(), 0, 'number'], ['', string(), '', 'input']]) {
  const context = createEnvContext({ source: (k) => k === 'N' ? text : undefined });
  let asked = 0;
  const p = object({ n: prompt(bindEnv(option('-n', vp), { context, key: 'N', parser: vp }), { type, message: 'n', prompter: async () => { asked++; return want; } }) });
  assert.deepEqual(await runWith(p, 'x', [context], { args: [] }), { n: want });
  assert.equal(asked, 0, JSON.stringify(text));
}""")),
dict(id="P01-number-prefix",property="P01",needs="an answer to a Clack number prompt that begins like a number and goes on otherwise",
 breaks="an answer such as 12ab counts as the number 12",
 edits=[("packages/clack/src/index.ts","  const parsed = Number(value);\n","  const parsed = Number.parseFloat(value);\n")],
 demo=demo({X:"object, option, integer, parseAsync","clack/dist/index.js":"prompt"},"""
for (const [a, want] of [['12', 12], [' 12 ', 12], ['12ab', undefined], ['1 2', undefined], ['', undefined]]) {
  const r = await parseAsync(object({ n: prompt(option('-n', integer()), { type: 'number', message: 'n', prompter: async () => a }) }), []);
  assert.equal(r.success, want !== undefined, a);
  if (r.success) assert.equal(r.value.n, want);
}""")),
dict(id="P01-zero-maximum",property="P01",needs="a Clack number prompt whose maximum is 0",
 breaks="a maximum of 0 is not enforced",
 edits=[("packages/clack/src/index.ts","if (cfg.max !== undefined && parsed > cfg.max) {","if (cfg.max && parsed > cfg.max) {")],
 demo=demo({X:"object, option, integer, parseAsync","clack/dist/index.js":"prompt"},"""
let validate;
globalThis[Symbol.for('@optique/clack/prompt-functions')] = { text: async (c) => { validate = c.validate; return '-1'; } };
for (const max of [-1, 0, 1]) {
  await parseAsync(object({ n: prompt(option('-n', integer()), { type: 'number', message: 'n', max }) }), []);
  if (!validate) throw new Error('no validator');
  assert.equal(await validate(String(max)), undefined); assert.ok(await validate(String(max + 1)), 'max ' + max);
}""")),
dict(id="E01-union-skip",property="E01",needs="a Zod union of string literals and a schema without choices",
 breaks="a union of literals and a free string claims that only the literals are possible",
 edits=[("packages/zod/src/index.ts","      if (sub == null) return undefined;\n      for (const choice of sub) {","      if (sub == null) continue;\n      for (const choice of sub) {")],
 demo="const { zod } = await import(process.cwd() + '/packages/zod/dist/index.js');\nimport { createRequire } from 'node:module';\nimport assert from 'node:assert/strict';\nconst { z } = createRequire(process.cwd() + '/packages/zod/package.json')('zod');\nassert.deepEqual(zod(z.union([z.literal('a'), z.literal('b')]), { placeholder: 'a' }).choices, ['a', 'b']);\nconst p = zod(z.union([z.literal('a'), z.string().min(3)]), { placeholder: 'a' });\nassert.equal(p.parse('abc').success, true);\nassert.equal(p.choices, undefined);\n"),
dict(id="E01-static-error",property="E01",needs="a coerced Zod Boolean with a fixed own error message and a text that is no Boolean",
 breaks="a fixed own message is not told when a text is no Boolean word",
 edits=[("packages/zod/src/index.ts","""      if (typeof options.errors.zodError !== "function") {
        return { success: false, error: options.errors.zodError };
      }
""","""      if (typeof options.errors.zodError !== "function") {
        return boolResult as ValueParserResult<T>;
      }
""",0)],
 demo="const { zod } = await import(process.cwd() + '/packages/zod/dist/index.js');\nconst { message, formatMessage } = await import(process.cwd() + '/packages/core/dist/index.js');\nimport { createRequire } from 'node:module';\nimport assert from 'node:assert/strict';\nconst { z } = createRequire(process.cwd() + '/packages/zod/package.json')('zod');\nfor (const s of [z.boolean(), z.coerce.boolean()]) { const r = zod(s, { placeholder: true, errors: { zodError: message`mine` } }).parse('maybe'); assert.equal(r.success, false); assert.equal(formatMessage(r.error), 'mine'); }\n"),
dict(id="E01-rejected-twice",property="E01",needs="a Standard Schema with several issues and no own message",
 breaks="the last instead of the first issue is told",
 edits=[("packages/standard-schema/src/index.ts","issues[0]","issues.at(-1)")],
 demo=""),
dict(id="L01-trailing-blanks",property="L01",needs="a formatter whose line ends in blanks",
 breaks="blanks at the end of a formatted line are lost",
 edits=[("packages/logtape/src/output.ts",'value.replace(/\\r?\\n$/, "")','value.trimEnd()')],
 demo="const { createConsoleSink } = await import(process.cwd() + '/packages/logtape/dist/index.js');\nimport assert from 'node:assert/strict';\nconst out = []; const saved = console.error; console.error = (...a) => out.push(a);\nconst r = { level: 'info', category: [], message: ['x'], rawMessage: 'x', timestamp: 0, properties: {} };\nfor (const l of ['a\\n', 'a  \\n', 'a\\n\\n']) createConsoleSink({ formatter: () => l })(r);\nconsole.error = saved;\nassert.deepEqual(out, [['a'], ['a  '], ['a\\n']]);\n"),
dict(id="L01-blank-path",property="L01",needs="a log output of tabs or other blanks than spaces",
 breaks="a path of tabs is taken for a log file",
 edits=[("packages/logtape/src/output.ts",'if (input.trim() === "") {','if (/^ *$/.test(input)) {')],
 demo="const { logOutput } = await import(process.cwd() + '/packages/logtape/dist/index.js');\nconst { parse } = await import(process.cwd() + '/packages/core/dist/index.js');\nimport assert from 'node:assert/strict';\nfor (const b of ['', ' ', '   ', '\\t', '\\u00a0']) assert.equal(parse(logOutput(), ['--log-output', b]).success, false, JSON.stringify(b));\nassert.equal(parse(logOutput(), ['--log-output', 'a b']).success, true);\n"),
dict(id="L01-sink-formatter",property="L01",needs="a console output with its own formatter and a sink with another",
 breaks="the formatter of the output comes before the sink's own",
 edits=[("packages/logtape/src/output.ts","formatter: consoleSinkOptions.formatter ?? output.formatter,","formatter: output.formatter ?? consoleSinkOptions.formatter,")],
 demo="const { createSink } = await import(process.cwd() + '/packages/logtape/dist/index.js');\nimport assert from 'node:assert/strict';\nconst out = []; const saved = console.error; console.error = (...a) => out.push(a);\nconst r = { level: 'info', category: [], message: ['x'], rawMessage: 'x', timestamp: 0, properties: {} };\n(await createSink({ type: 'console', formatter: () => 'output' }))(r);\n(await createSink({ type: 'console' }, { formatter: () => 'sink' }))(r);\n(await createSink({ type: 'console', formatter: () => 'output' }, { formatter: () => 'sink' }))(r);\nconsole.error = saved;\nassert.deepEqual(out, [['output'], ['sink'], ['sink']]);\n"),
dict(id="D01-hidden-multiple",property="D01",needs="a hidden group(), object() or merge() around a repeated option or argument",
 breaks="a repeated part of a hidden group is still shown in usage lines",
 edits=[(C+"constructs.ts","""      type: "multiple",
      terms: applyHiddenToUsage(term.terms, hidden),""","""      type: "multiple",
      terms: term.terms,""")],
 demo=demo({X:"object, group, option, string, multiple, optional, formatUsage"},"""
for (const wrap of [(p) => p, optional, multiple]) {
  assert.equal(formatUsage('x', group('G', wrap(option('-a', string())), { hidden: true }).usage).trim(), 'x');
  assert.equal(formatUsage('x', object({ a: wrap(option('-a', string())) }, { hidden: 'usage' }).usage).trim(), 'x');
}""")),
dict(id="S03-ratio",property="S03",needs="a candidate longer than the text typed, at the edge of the distance ratio",
 breaks="names too far from a short text are hinted",
 edits=[(C+"suggestion.ts","const distanceRatio = distance / input.length;","const distanceRatio = distance / Math.max(input.length, candidate.length);")],
 demo="const { findSimilar } = await import(process.cwd() + '/packages/core/dist/suggestion.js');\nimport assert from 'node:assert/strict';\nassert.deepEqual(findSimilar('abcd', ['abcdef'], { maxDistance: 3, maxDistanceRatio: 0.5 }), ['abcdef']);\nassert.deepEqual(findSimilar('abc', ['abcde'], { maxDistance: 3, maxDistanceRatio: 0.5 }), []);\nassert.deepEqual(findSimilar('ab', ['abcd'], { maxDistance: 3, maxDistanceRatio: 0.5 }), []);\n"),
dict(id="S04-carriage-return",property="S04",needs="a suggestion text or description with a carriage return",
 breaks="a carriage return in a suggestion is handed to the shell as it is",
 edits=[(C+"completion.ts",'return text.replace(/[\\t\\n\\r\\0]/g, " ");','return text.replace(/[\\t\\n\\0]/g, " ");')],
 demo="const c = await import(process.cwd() + '/packages/core/dist/completion.js');\nconst { message } = await import(process.cwd() + '/packages/core/dist/index.js');\nimport assert from 'node:assert/strict';\nfor (const n of ['bash', 'zsh', 'fish', 'pwsh', 'nu']) { const out = [...c[n].encodeSuggestions([{ kind: 'literal', text: 'a\\rb', description: message`x` }])].join(''); assert.ok(!out.includes('\\r'), n); }\n"),
dict(id="X02-outer-fallback",property="X02",needs="a command with afterEach but no beforeEach below a program with beforeEach",
 breaks="a command's hooks without beforeEach get an empty context instead of the program's",
 edits=[("packages/discover/src/index.ts","        programContext,\n      ),","        commandHooks?.afterEach == null ? programContext : {},\n      ),")],
 demo=demo({"discover/dist/index.js":"runProgram, defineCommand",X:"object"},"""
const seen = [];
for (const hooks of [{ onError() {} }, { afterEach(c) { seen.push(c); } }, { beforeEach() { return { own: 1 }; }, afterEach(c) { seen.push(c); } }]) {
  const command = defineCommand({ parser: object({}), handler() {}, hooks });
  await runProgram({ metadata: { name: 'x' }, commands: [{ path: ['a'], command }], args: ['a'], hooks: { beforeEach() { return { db: 1 }; } } });
}
assert.deepEqual(seen, [{ db: 1 }, { own: 1 }]);""")),
dict(id="N01-line-start",property="N01",needs="a text whose line after the first begins with a single quote",
 breaks="a quote at the start of a later line is read as a roff request",
 edits=[("packages/man/src/roff.ts","result = result.replace(/\\n([.'])/g,","result = result.replace(/\\n([.])/g,")],
 demo="const { escapeRoff } = await import(process.cwd() + '/packages/man/dist/index.js');\nimport assert from 'node:assert/strict';\nassert.equal(escapeRoff('a\\n.b'), 'a\\n\\\\&.b');\nassert.equal(escapeRoff(\"'a\\n'b\"), \"\\\\&'a\\n\\\\&'b\");\n"),
]
KEEP=['L01-blank-path', 'L01-trailing-blanks', 'P01-falsy-source', 'P01-number-prefix', 'P01-zero-maximum', 'S03-ratio']
SEEDS=[s for s in SEEDS if s["id"] in KEEP]  # the others are caught by the existing tests
