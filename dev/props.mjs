// Writes properties.jsonl and MANIFEST.json from dev/props/*.mjs
import fs from "node:fs";
const dir = new URL("./props/", import.meta.url);
const all = [];
for (const f of fs.readdirSync(dir).sort()) all.push(...(await import(new URL(f, dir))).default);
all.sort((a, b) => (a.id < b.id ? -1 : 1));
const root = new URL("../", import.meta.url);
const lines = all.map(({ id, title, statement, over, all, why, files, mech, observe, na }) => {
  if (title.length > 80) throw new Error(id + " title too long " + title.length);
  if (statement.split(/[.!?](?=\s|$)/).filter((x) => x.trim()).length > 3) throw new Error(id + " statement has more than three sentences");
  for (const x of files) if (!fs.existsSync("/repo/" + x)) throw new Error(id + " no file " + x);
  return JSON.stringify({
    id, title, statement, quantifier: { over, text: all }, why_tests_cant: why,
    anchors: { files, mechanism: mech.map(([name, where]) => ({ name, where })), observe_at: observe ?? [], hook_needed: null },
  });
});
fs.writeFileSync(new URL("properties.jsonl", root), lines.join("\n") + "\n");
const manifest = {
  version: 1,
  setup_cmd: "node engine/selftest.mjs",
  checks: all.filter((p) => !p.na).map((p) => ({
    property: p.id,
    quick_cmd: `node check.mjs ${p.id} --tier quick`,
    thorough_cmd: `node check.mjs ${p.id} --tier thorough`,
    technique: p.technique ?? "bounded symbolic execution of the real source, SMT-decided (cvc5/z3)",
    level: "model_checking",
    level_note: p.note,
  })),
  not_applicable: all.filter((p) => p.na).map((p) => ({ property: p.id, reason: p.na })),
  notes: "Engine: engine/*.mjs; harnesses: harness/<ID>/*.ts; see DESIGN.md. No hooks are needed in /repo: the checks instrument copies of /repo/packages/*/src in a scratch directory on every run.",
};
fs.writeFileSync(new URL("MANIFEST.json", root), JSON.stringify(manifest, null, 1) + "\n");
console.log(lines.length + " properties, " + manifest.checks.length + " checks");
