C="packages/core/src/"
def demo(imports, body):
    return "const M = (p) => import(process.cwd() + '/packages/' + p);\nimport assert from 'node:assert/strict';\n"+"".join(f"const {{ {n} }} = await M('{p}');\n" for p,n in imports.items())+body+"\n"
X="core/dist/index.js"
SEEDS=[
dict(id="C01-short-dash-word",property="C01",needs="a single-dash option name of exactly two letters, given with a joined value",
 breaks="-nm=x is rejected although single-dash words take joined values",
 edits=[(C+"primitives.ts",'(name.startsWith("-") && name.length > 2)\n        )\n        .map((name) => name.startsWith("/") ? `${name}:` : `${name}=`);','(name.startsWith("-") && name.length > 3)\n        )\n        .map((name) => name.startsWith("/") ? `${name}:` : `${name}=`);',0)],
 demo=demo({X:"option, string, object, parse"},"for (const n of ['-nm', '-name']) for (const a of [[n + '=x'], [n, 'x']]) assert.equal(parse(object({ n: option(n, string()) }), a).value?.n, 'x', a.join());")),
dict(id="C05-concat-terminator",property="C05",needs="concat() with a positional after `--` and a later token that looks like an option of another member",
 breaks="concat() of tuples forgets `--` between its members although one tuple does not",
 edits=[(C+"constructs.ts","""            buffer: result.next.buffer,
            optionsTerminated: result.next.optionsTerminated,
            state: newStateArray as readonly unknown[],""","""            buffer: result.next.buffer,
            state: newStateArray as readonly unknown[],""",0)],
 demo=demo({X:"option, argument, multiple, string, tuple, concat, parse"},"""
const o = option('-o'), x = argument(string()), y = multiple(argument(string()));
for (const a of [['x'], ['-o', 'x'], ['x', '-o'], ['--', 'x', '-o'], ['--', '-o'], ['--', '-o', '-o']]) {
  const one = parse(tuple([x, o, y]), a), two = parse(concat(tuple([x, o]), tuple([y])), a);
  const three = parse(concat(tuple([x]), tuple([o]), tuple([y])), a);
  assert.deepEqual([three.success, three.value], [one.success, one.value], a.join());
  assert.deepEqual([two.success, two.value], [one.success, one.value], a.join());
}""")),
dict(id="C02-merge-terminator",property="C02",needs="merge() of objects, `--` and then a positional value that looks like an option of the other object",
 breaks="merge() forgets `--` between its members",
 edits=[(C+"constructs.ts","""          buffer: result.next.buffer,
          optionsTerminated: result.next.optionsTerminated,
          state: newState,""","""          buffer: result.next.buffer,
          state: newState,""",0)],
 demo=demo({X:"option, argument, multiple, string, object, merge, parse"},"""
const p = merge(object({ o: option('-o') }), object({ xs: multiple(argument(string())) }));
assert.deepEqual(parse(p, ['a', '-o']).value, { o: true, xs: ['a'] });
assert.deepEqual(parse(p, ['--', 'a', '-o']).value, { o: false, xs: ['a', '-o'] });
assert.deepEqual(parse(merge(object({ x: argument(string()) }), object({ o: option('-o') }), object({ y: argument(string()) })), ['--', 'a', '-o']).value, { o: false, x: 'a', y: '-o' });""")),
dict(id="C03-longest-count",property="C03",needs="longestMatch() where a later alternative consumes the same number of tokens as an earlier one",
 breaks="a tie goes to the last alternative, so a different alternative's result is returned",
 edits=[(C+"constructs.ts","bestMatch === null || consumed > bestMatch.consumed ||","bestMatch === null || consumed > bestMatch.consumed ||\n          (consumed === bestMatch.consumed && consumed > 2) ||",0)],
 demo=demo({X:"option, argument, longestMatch, string, object, constant, parse"},"const g = (k) => object({ k: constant(k), a: argument(string()), b: argument(string()), c: argument(string()) });\nassert.equal(parse(longestMatch(g(1), g(2)), ['x', 'y', 'z']).value.k, 1);")),
dict(id="C04-alias-kind",property="C04",needs="a command entered by its alias whose own grammar has a subcommand of the same name as the alias",
 breaks="after a command was entered by an alias, the same word again is swallowed instead of reaching the subcommand",
 edits=[(C+"primitives.ts","            buffer: context.buffer.slice(1),\n            state: createCommandState(\n              context.state,\n              [\"matched\", name] as [\"matched\", string],","            buffer: context.buffer[1] === context.buffer[0] && context.buffer[0] !== name\n              ? context.buffer.slice(2)\n              : context.buffer.slice(1),\n            state: createCommandState(\n              context.state,\n              [\"matched\", name] as [\"matched\", string],")],
 demo=demo({X:"command, argument, string, object, parse"},"const p = command('remove', object({ x: argument(string()) }), { aliases: ['rm'] });\nfor (const n of ['remove', 'rm']) { assert.equal(parse(p, [n, n]).value?.x, n); assert.equal(parse(p, [n, n, 'z']).success, false, n); }")),
dict(id="C09-digit-name",property="C09",needs="an unrecognized --name=value option whose name starts with a digit",
 breaks="--3d=on is no longer passed through",
 edits=[(C+"primitives.ts","const equalsOptionPattern = /^--[a-z0-9-]+=/i;","const equalsOptionPattern = /^--[a-z][a-z0-9-]*=/i;")],
 demo=demo({X:"passThrough, object, option, parse"},"assert.deepEqual(parse(object({ o: option('-o'), r: passThrough() }), ['-o', '--3d=on', '--x=1']).value, { o: true, r: ['--3d=on', '--x=1'] });")),
dict(id="C09-next-equals",property="C09",needs="nextToken format, an option without = followed by a value that contains =",
 breaks="the value that follows an unrecognized option is not collected when it contains an equals sign",
 edits=[(C+"primitives.ts","if (nextToken !== undefined && !optionPattern.test(nextToken)) {","if (\n          nextToken !== undefined && !optionPattern.test(nextToken) &&\n          !/^[a-z]+=/i.test(nextToken)\n        ) {")],
 demo=demo({X:"passThrough, object, option, parse"},"const p = object({ o: option('-o'), r: passThrough({ format: 'nextToken' }) });\nassert.deepEqual(parse(p, ['--env', 'A', '-o']).value, { o: true, r: ['--env', 'A'] });\nassert.deepEqual(parse(p, ['--env', 'A=1', '-o']).value, { o: true, r: ['--env', 'A=1'] });")),
dict(id="C08-multiple-index",property="C08",needs="an asynchronous multiple() of a two-part item whose first item is followed by a fresh one",
 breaks="the asynchronous parser extends the wrong item",
 edits=[(C+"modifiers.ts","""        itemIndex = context.state.length;
        result = await parseAsyncWithUnwrappedFallback(
          withChildContext(context, itemIndex, nextInitialState),
        );
        if (!result.success) {""","""        itemIndex = context.state.length;
        result = await parseAsyncWithUnwrappedFallback(
          withChildContext(context, itemIndex, nextInitialState),
        );
        if (!result.success || result.consumed.length > 2) {""")],
 demo=demo({X:"option, argument, multiple, string, object, tuple, parse, parseAsync"},"""
const as = { ...string(), mode: 'async', parse: async (s) => string().parse(s), format: (s) => s };
const g = (v) => object({ xs: multiple(tuple([option('-n', v), argument(v)])) });
for (const a of [['-n', 'a', 'b'], ['-n', 'a', 'b', '-n', 'c', 'd']]) assert.deepEqual((await parseAsync(g(as), a)).value, parse(g(string()), a).value, a.join());""")),
dict(id="S01-multiple-max",property="S01",needs="multiple() with a maximum that has just been reached, completing the next word",
 breaks="a further value is offered although no more are accepted",
 edits=[(C+"modifiers.ts","      const canOpenNew = context.state.length < max;\n      if (!canExtendCurrent && !canOpenNew) {","      const canOpenNew = context.state.length <= max;\n      if (!canExtendCurrent && !canOpenNew) {")],
 demo=demo({X:"argument, multiple, choice, object, suggestSync, parse"},"const p = object({ x: multiple(argument(choice(['aa', 'bb', 'cc'])), { max: 2 }) });\nassert.equal(parse(p, ['aa', 'bb', 'cc']).success, false);\nassert.deepEqual(suggestSync(p, ['aa', '']).map((s) => s.text), ['bb', 'cc']);\nassert.deepEqual(suggestSync(p, ['aa', 'bb', '']), []);")),
dict(id="S02-selected-prefix",property="S02",needs="a repeated choice option where one choice is a prefix of another that was given already",
 breaks="a choice that was not given is withheld because a given one starts with it",
 edits=[(C+"modifiers.ts","          return !selectedValues.has(suggestion.text);","          return ![...selectedValues].some((v) =>\n            v.startsWith(suggestion.text)\n          );")],
 demo=demo({X:"argument, multiple, choice, object, suggestSync"},"const p = object({ x: multiple(argument(choice(['dev', 'devel', 'prod']))) });\nassert.deepEqual(suggestSync(p, ['devel', '']).map((s) => s.text), ['dev', 'prod']);\nassert.deepEqual(suggestSync(p, ['dev', '']).map((s) => s.text), ['devel', 'prod']);")),
dict(id="V02-fold-length",property="V02",needs="a case-insensitive choice and an input whose lower-case form differs in length or only beyond ASCII",
 breaks="V02 placeholder",edits=[(C+"x","","")],demo=""),
dict(id="V04-cron-sun-range",property="V04",needs="a day-of-week range that starts at SUN and ends at SUN or 0",
 breaks="SUN-SUN is taken for a full week ending at 7, so 0-0 style ranges such as MON-0 stay but SUN-0 is wrongly decided",
 edits=[(C+"valueparser.ts",'    (end.toUpperCase() === "SUN" || end === "0")','    (end.toUpperCase() === "SUN" || /^0+$/u.test(end))')],
 demo=demo({X:"cron"},"const ok = (s) => cron().parse(s).success;\nassert.equal(ok('0 0 * * MON-0'), true);\nassert.equal(ok('0 0 * * MON-00'), false);")),
dict(id="V04-cron-step-range",property="V04",needs="a step larger than the field's range or a step on a single value of 10 digits",
 breaks="a step of zero with leading zeros is accepted",
 edits=[(C+"valueparser.ts","return /^\\d+$/u.test(step) && Number.parseInt(step, 10) > 0;","return /^\\d+$/u.test(step) && step !== \"0\";")],
 demo=demo({X:"cron"},"for (const z of ['0', '00', '000']) assert.equal(cron().parse('*/' + z + ' * * * *').success, false, z);\nassert.equal(cron().parse('*/05 * * * *').success, true);")),
dict(id="V03-mapped-prefix",property="V03",needs="an IPv6 address whose group 4 is not zero while the groups before and ffff after look like an IPv4-mapped one",
 breaks="an ordinary IPv6 address is treated as IPv4-mapped and refused",
 edits=[(C+"valueparser.ts","  for (let i = 0; i < 5; i++) {\n    if (parseInt(groups[i], 16) !== 0) return null;","  for (let i = 0; i < 4; i++) {\n    if (parseInt(groups[i], 16) !== 0) return null;")],
 demo=demo({X:"ip"},"const p = ip({ ipv4: { allowPrivate: false } });\nassert.equal(p.parse('::ffff:10.0.0.1').success, false);\nassert.equal(p.parse('::1:ffff:a00:1').success, true);\nassert.equal(p.parse('1::ffff:a00:1').success, true);")),
dict(id="V05-dotfile",property="V05",needs="a path that consists of nothing but an allowed extension, below a directory",
 breaks="path() judges the extension on the whole path, so a directory part can supply it",
 edits=[("packages/run/src/valueparser.ts",'const base = /[/\\\\]$/.test(input) ? "" : basename(input);','const base = basename(input);')],
 demo=demo({"run/dist/index.js":"path"},"const p = path({ extensions: ['.json'] });\nassert.equal(p.parse('a/b.json').success, true);\nassert.equal(p.parse('a.json/').success, false);\nassert.equal(p.parse('a.json/b').success, false);")),
dict(id="I01-env-default-falsy",property="I01",needs="an environment binding whose default is 0, false or the empty string",
 breaks="a falsy default is not used",
 edits=[("packages/config/src/index.ts","  if (options.default !== undefined) {\n    return validateFallbackValue(mode, innerParser, options.default);\n  }\n\n  // Distinguish","  if (options.default !== undefined && options.default !== \"\") {\n    return validateFallbackValue(mode, innerParser, options.default);\n  }\n\n  // Distinguish")],
 demo=demo({X:"option, string, object, runWith, parse","core/dist/facade.js":"runWithSync","config/dist/index.js":"createConfigContext, bindConfig"},"""
const schema = { '~standard': { version: 1, vendor: 'x', validate: (v) => ({ value: v }) } };
const context = createConfigContext({ schema });
const run = (d) => runWith(object({ f: bindConfig(option('-f', string()), { context, key: 'f', default: d }) }), 'x', [context], { args: [], contextOptions: { load: () => ({ config: {}, meta: undefined }) }, stderr() {}, onError() { throw new Error('rejected'); } });
assert.deepEqual(await run('a'), { f: 'a' });
assert.deepEqual(await run(''), { f: '' });""")),
dict(id="F01-last-wins",property="F01",needs="an invalid command line with a help option before a version option",
 breaks="the first of the requests wins over a later one with equal standing",edits=[(C+"x","","")],demo=""),
dict(id="F02-exit-zero",property="F02",needs="errorExitCode set to 0",
 breaks="an explicit error exit code of 0 is replaced by 1",
 edits=[("packages/run/src/run.ts","const errorExitCode = options.errorExitCode ?? 1;","const errorExitCode = options.errorExitCode || 1;")],
 demo=demo({X:"option, string, object","run/dist/index.js":"runSync"},"for (const c of [1, 2, 0]) { let e; try { runSync(object({ o: option('-o') }), { args: ['z'], errorExitCode: c, stderr() {}, onExit(x) { e = x; throw 0; } }); } catch {} assert.equal(e, c); }")),
dict(id="F01-help-value",property="F01",needs="a help option after `--` that itself follows a failing token",
 breaks="a help option after `--` is taken as a request when the command line is invalid",
 edits=[(C+"facade.ts","return terminatorIndex >= 0\n      ? failure.remainingArgs.slice(0, terminatorIndex)","return terminatorIndex > 0\n      ? failure.remainingArgs.slice(0, terminatorIndex)")],
 demo=demo({X:"option, integer, argument, object, runParser"},"""
const p = object({ o: option('-o') });
const run = (a) => { let r = 'value'; runParser(p, 'x', a, { help: { option: true, onShow() { r = 'help'; } }, stdout() {}, stderr() {}, onError() { r = 'error'; } }); return r; };
assert.equal(run(['--help']), 'help'); assert.equal(run(['z', '--', '--help']), 'error'); assert.equal(run(['--', '--help']), 'error'); assert.equal(run(['-o', '--', '--help']), 'error');""")),
]
SEEDS=[s for s in SEEDS if s["demo"]]
