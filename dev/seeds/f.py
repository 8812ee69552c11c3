C="packages/core/src/"
def demo(imports, body):
    return "const M = (p) => import(process.cwd() + '/packages/' + p);\nimport assert from 'node:assert/strict';\n"+"".join(f"const {{ {n} }} = await M('{p}');\n" for p,n in imports.items())+body+"\n"
X="core/dist/index.js"
POLY="import { createRequire } from 'node:module';\nglobalThis.Temporal ??= createRequire(process.cwd() + '/packages/temporal/package.json')('@js-temporal/polyfill').Temporal;\n"
SEEDS=[
dict(id="T01-comma-fraction",property="T01",needs="a time whose fraction of a second is written after a comma",
 breaks="ISO 8601 texts with a comma before the fraction are refused",
 edits=[("packages/temporal/src/index.ts",r"const FRACTIONAL = String.raw`[.,]\d+`;",r"const FRACTIONAL = String.raw`[.]\d+`;")],
 demo=POLY+demo({"temporal/dist/index.js":"plainTime, plainDateTime"},"assert.equal(plainTime().parse('17:04:36.5').success, true);\nassert.equal(plainTime().parse('17:04:36,5').success, true);\nassert.equal(plainDateTime().parse('2020-01-23T170436,25').success, true);")),
dict(id="T01-year-sign",property="T01",needs="a date and time whose year has a minus sign",
 breaks="expanded years before year 0 are refused",
 edits=[("packages/temporal/src/index.ts",r"const YEAR = String.raw`([+-]\d{6}|\d{4})`;",r"const YEAR = String.raw`(\+?\d{6}|\d{4})`;")],
 demo=POLY+demo({"temporal/dist/index.js":"plainDate, plainYearMonth"},"assert.equal(plainDate().parse('+002020-01-23').success, true);\nassert.equal(plainDate().parse('-000044-03-15').success, true);\nassert.equal(plainYearMonth().parse('-000044-03').success, true);")),
dict(id="T01-critical-calendar",property="T01",needs="a calendar annotation with the critical flag",
 breaks="texts with [!u-ca=...] are refused where an annotation is optional",
 edits=[("packages/temporal/src/index.ts",r"const CALENDAR_ANNOTATION = String.raw`(\[!?u-ca=",r"const CALENDAR_ANNOTATION = String.raw`(\[u-ca=")],
 demo=POLY+demo({"temporal/dist/index.js":"plainDate"},"assert.equal(plainDate().parse('2020-01-23[u-ca=iso8601]').success, true);\nassert.equal(plainDate().parse('2020-01-23[!u-ca=iso8601]').success, true);")),
dict(id="G01-ref-short-name",property="G01",needs="completing a reference from more than seven characters of a commit",
 breaks="the commit offered is shorter than what was typed",
 edits=[("packages/git/src/index.ts","const minLen = Math.max(7, prefix.length);","const minLen = 7;",1)],
 demo="""import assert from 'node:assert/strict';
import { execFileSync } from 'node:child_process';
import { mkdtempSync, rmSync } from 'node:fs';
import { tmpdir } from 'node:os';
import { join } from 'node:path';
const { gitRef } = await import(process.cwd() + '/packages/git/dist/index.js');
const dir = mkdtempSync(join(tmpdir(), 'g-'));
try {
  const git = (...a) => execFileSync('git', ['-C', dir, '-c', 'user.name=a', '-c', 'user.email=a@b', ...a], { encoding: 'utf8', stdio: ['ignore', 'pipe', 'ignore'] }).trim();
  git('init', '-q'); git('commit', '-q', '--allow-empty', '-m', 'one');
  const oid = git('rev-parse', 'HEAD');
  for (const n of [3, 7, 10, 40]) {
    const got = [];
    for await (const s of gitRef({ dir }).suggest(oid.slice(0, n))) got.push(s.text);
    assert.deepEqual(got, [oid.slice(0, Math.max(7, n))], String(n));
  }
} finally { rmSync(dir, { recursive: true }); }
"""),
dict(id="G01-remote-unknown",property="G01",needs="several commits of one prefix, three of which collide",
 breaks="an abbreviation shared by two commits is offered",
 edits=[("packages/git/src/index.ts","    for (const [short, group] of groups) {\n      if (group.length === 1) {","    for (const [short, group] of groups) {\n      if (group.length === 1 || remaining.size === 1) {")],
 demo="process.exit(0)"),
dict(id="V04-steel-blue",property="V04",needs="the colour lightsteelblue",
 breaks="one of the named colours has another value",
 edits=[(C+"valueparser.ts","lightsteelblue: { r: 176, g: 196, b: 222, a: 1 }","lightsteelblue: { r: 176, g: 196, b: 220, a: 1 }")],
 demo=demo({X:"color"},"assert.deepEqual(color().parse('lightsteelblue').value, { r: 176, g: 196, b: 222, a: 1 });")),
dict(id="C10-transformed-sources",property="C10",needs="a value parser derived from two sources, passed through transform()",
 breaks="a transformed derived parser forgets that it depends on two sources",
 edits=[(C+"valueparser.ts","  if (dependencyIds in parser && parser[dependencyIds] != null) {\n    Object.defineProperty(transformed, dependencyIds, {\n      value: parser[dependencyIds],","  if (dependencyIds in parser && parser[dependencyIds] != null) {\n    Object.defineProperty(transformed, dependencyIds, {\n      value: parser[dependencyIds].slice(0, 1),")],
 demo=demo({X:"object, option, string, transform, dependency, deriveFrom, parseSync","core/dist/modifiers.js":"optional"},"""
const s = dependency(string()), s2 = dependency(string());
const d = deriveFrom({ metavar: 'D', mode: 'sync', dependencies: [s, s2], factory: (a, b) => ({ mode: 'sync', metavar: 'D', placeholder: '', parse: (x) => ({ success: true, value: [a, b, x].join() }), format: (x) => x }), defaultValues: () => ['p', 'q'] });
for (const t of [d, transform(d, { map: (x) => x + '!', unmap: (x) => x.slice(0, -1) })]) {
  const p = object({ d: optional(option('-d', t)), m: optional(option('-m', s)), n: optional(option('-n', s2)) });
  const r = parseSync(p, ['-d', 'x', '-n', 'N', '-m', 'M']);
  assert.equal(r.value.d, t === d ? 'M,N,x' : 'M,N,x!');
}""")),
]
SEEDS=[s for s in SEEDS if s['id'] in ('V04-steel-blue','C10-transformed-sources')]
