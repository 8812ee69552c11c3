// Notes which check catches which planted bug: node dev/caught.mjs ID TEXT
import { readFileSync, writeFileSync } from "node:fs";
const f = new URL("./caught.json", import.meta.url);
let o = {}; try { o = JSON.parse(readFileSync(f, "utf8")); } catch {}
for (let i = 2; i + 1 < process.argv.length; i += 2) o[process.argv[i]] = process.argv[i + 1];
writeFileSync(f, JSON.stringify(o, Object.keys(o).sort(), 1) + "\n");
