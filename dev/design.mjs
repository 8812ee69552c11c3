// Writes DESIGN.md from dev/DESIGN.tmpl.md, the harnesses' stated bounds and dev/caught.json
import fs from "node:fs";
const root = new URL("../", import.meta.url);
const rd = (p) => fs.readFileSync(new URL(p, root), "utf8");
const props = rd("properties.jsonl").trim().split("\n").map((l) => JSON.parse(l));
const { default: how } = await import(new URL("dev/how.mjs", root));
const manifest = JSON.parse(rd("MANIFEST.json"));
const out = [];
for (const p of props) {
  out.push(`### ${p.id} ${p.title}`, "");
  const na = manifest.not_applicable.find((n) => n.property === p.id);
  if (na) { out.push("Not applicable: " + na.reason, ""); continue; }
  if (!how[p.id]) throw new Error("no how for " + p.id);
  out.push("*Encoded*: the import closure of " + p.anchors.files.map((f) => "`" + f.replace("packages/", "").replace("/src/", "/") + "`").join(", ") + ".", "");
  out.push(how[p.id].trim(), "");
  for (const f of fs.readdirSync(new URL("harness/" + p.id, root)).filter((f) => f.endsWith(".ts")).sort()) {
    const src = rd("harness/" + p.id + "/" + f);
    const b = /bounds: ("(?:[^"\\]|\\.)*")/.exec(src), a = /assumptions: (\[[^\]]*\])/.exec(src);
    out.push(`* \`${f}\`: ${JSON.parse(b[1])}.` + (a && a[1] !== "[]" ? " Assumed: " + eval(a[1]).join("; ") + "." : ""));
  }
  let cost = "";
  try { const e = JSON.parse(rd("evidence/" + p.id + ".json")); cost = JSON.parse(rd("dev/cost.json"))[p.id]; } catch {}
  if (cost) out.push("", "Cost: " + cost + ".");
  out.push("");
}
const caught = (() => { try { return JSON.parse(rd("dev/caught.json")); } catch { return {}; } })();
const seeds = ["| bug | property | needs | caught by |", "|---|---|---|---|"];
for (const s of fs.readdirSync(new URL("seeded", root)).sort()) {
  const m = JSON.parse(rd("seeded/" + s + "/meta.json"));
  seeds.push(`| ${s} | ${m.property} | ${m.needs.replaceAll("|", "\\|")} | ${caught[s] ?? "?"} |`);
}
fs.writeFileSync(new URL("DESIGN.md", root), rd("dev/DESIGN.tmpl.md").replace("@@PROPS@@", () => out.join("\n").trim()).replace("@@SEEDS@@", () => seeds.join("\n")));
