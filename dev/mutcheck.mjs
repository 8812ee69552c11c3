// dev/mutcheck.mjs KEPT.jsonl OUT.jsonl: runs the checks of each surviving mutant's area until one reports it
import { spawnSync, execFileSync } from "node:child_process";
import { appendFileSync, existsSync, readFileSync, writeFileSync } from "node:fs";
const [list, outFile, from = "0"] = process.argv.slice(2);
const V = new URL("..", import.meta.url).pathname, D = "/tmp/mut/c";
if (!existsSync(D)) execFileSync("cp", ["-a", "/repo", D]);
const AREA = [
  [/core\/src\/valueparser/, "V01 V02 V03 V04 V06 C10 S03 M01"],
  [/core\/src\/(suggestion)/, "S03 S01 S02"], [/core\/src\/(usage|doc|message|displaywidth|usage-internals)/, "M01 D01 S03 N01 F01"],
  [/core\/src\/completion/, "S04"], [/core\/src\/facade/, "F01 F02 F03 S04 I01 I03 D01"],
  [/core\/src\/(dependency|internal\/dependency)/, "C10 S02 I01 I03"], [/core\/src\/primitives/, "C01 C02 C04 S01 S02 D01 C09 C07 S03 C08 F01 I01"],
  [/core\/src\/modifiers/, "C06 C01 C05 C08 I01 I03 S01 C10 D01 C07 C12 F03"], [/core\/src\/internal\/parser/, "D01 C07 C01 S01 S02 C08 F01 C10"],
  [/core\/src\/constructs/, "C03 C05 C12 C11 C02 C04 C08 C06 C10 S01 S02 S03 D01 C07 C09 I01 I03 F01"],
  [/core\//, "C01 C08 I01 I03 F03 C10"], [/packages\/env/, "I02 I01 I03"], [/packages\/config/, "I01 I03 F03"], [/packages\/derived/, "I01 I03 F03"],
  [/packages\/run\/src\/valueparser/, "V05"], [/packages\/run/, "F02 F03 S04"], [/packages\/man/, "N01 D01"],
];
const muts = readFileSync(list, "utf8").trim().split("\n").map((l) => JSON.parse(l));
for (const m of muts.slice(Number(from))) {
  const src = readFileSync(D + "/" + m.file, "utf8");
  writeFileSync(`${D}/${m.file}`, src.slice(0, m.pos) + m.new + src.slice(m.end));
  let caught = null;
  for (const id of AREA.find(([r]) => r.test(m.file))?.[1].split(" ") ?? []) {
    if (!existsSync(`${V}/harness/${id}`)) continue;
    const r = spawnSync("node", ["check.mjs", id, "--tier", "quick"], { cwd: V, env: { ...process.env, SX_REPO: D }, encoding: "utf8", timeout: 300000 });
    if (r.status !== 0) { caught = { id, why: (r.stdout + r.stderr).split("\n").filter((l) => !/^(KNOWN|VIOLATION)/.test(l) && l.startsWith("  ")).slice(0, 1).join().slice(0, 160) }; break; }
  }
  writeFileSync(`${D}/${m.file}`, src);
  appendFileSync(outFile, JSON.stringify({ ...m, caught }) + "\n");
  console.log(`${m.file}:${m.line} ${m.op} ${caught ? "CAUGHT " + caught.id + caught.why : "MISSED  " + JSON.stringify(src.slice(m.pos, m.end)).slice(0, 120) + " -> " + JSON.stringify(m.new).slice(0, 100)}`);
}
