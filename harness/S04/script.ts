import { bash, fish, nu, pwsh, zsh } from "@optique/core/completion";

const SHELLS: Record<string, any> = { bash, fish, nu, pwsh, zsh };
const isName = (sx: any, c: string, first: boolean) => sx.charIn(c, [["a", "z"], ["A", "Z"], ["0", "9"], "_", ...(first ? [] : ["-", "."])]);
/** the words of a command as the shell reads its quotes; null when a quote is left open */
function words(sx: any, shell: string, s: string, n: number): string[] | null {
  const out: string[] = [];
  const is = (i: number, c: string) => i < s.length && sx.is(sx.eq(s[i], c));
  let i = 0;
  while (out.length < n) {
    while (is(i, " ") || shell === "pwsh" && is(i, ",")) i++;
    if (i >= s.length) break;
    let w = "";
    for (;;) {
      if (i >= s.length || is(i, " ") || is(i, "\n") || shell === "pwsh" && (is(i, ",") || is(i, ")"))) break;
      if (is(i, "'")) {
        i++;
        for (;;) {
          if (i >= s.length) return null;
          if (shell === "fish" && is(i, "\\") && (is(i + 1, "\\") || is(i + 1, "'"))) { w += s[i + 1]; i += 2; continue; }
          if (is(i, "'")) {
            if (shell === "pwsh" && is(i + 1, "'")) { w += "'"; i += 2; continue; }
            i++; break;
          }
          w += s[i++];
        }
      } else if (is(i, "\\") && shell !== "pwsh" && shell !== "nu") { w += s[i + 1]; i += 2; } else w += s[i++];
    }
    out.push(w);
  }
  return out;
}
export default {
  name: "script",
  bounds: "the script of each of the 5 shells: program names of 0-3 characters of any kind; 1-2 arguments of 1-3 characters of any kind (Nushell: without single quotes, fish and PowerShell: ASCII), as the shell reads the quotes",
  assumptions: ["where the script calls the program, its name stands followed by the arguments (PowerShell: in the first list of arguments)"],
  covers: ["safe name", "unsafe name", "arguments"],
  cases: () => {
    const out: any[] = [];
    for (const s of Object.keys(SHELLS)) { for (const n of [0, 1, 2, 3]) out.push([s, "name", n]); for (const l of [[1], [2], [3], [1, 1], [2, 1], [1, 2]]) out.push([s, "args", l]); }
    return out;
  },
  run(sx: any) {
    const [shell, what, n] = sx.case;
    const sh = SHELLS[shell];
    if (what === "name") {
      const name = sx.str("name", { len: n, chars: [[0, 0xd7ff], [0xe000, 0xffff]] });
      let script: string | undefined;
      try { script = sh.generateScript(name, []); } catch (e) { sx.assert(e instanceof Error, "a refused name does not throw an error"); }
      const safe = n > 0 && sx.is(sx.and(...[...name].map((c, i) => isName(sx, c, i === 0))));
      sx.cover(safe ? "safe name" : "unsafe name");
      sx.observe("script", script !== undefined);
      sx.assert((script !== undefined) === safe, safe ? "a safe program name is refused" : "an unsafe program name is put into a script");
      return;
    }
    const chars = shell === "nu" ? [[0x20, 0x26], [0x28, 0x7e]] : shell === "fish" || shell === "pwsh" ? [[0x20, 0x7e], "\n"] : [[1, 0xd7ff]];
    const args = n.map((k: number, i: number) => sx.str("a" + i, { len: k, chars }));
    const script: string = sh.generateScript("pr0g", args);
    sx.cover("arguments");
    // the words after the program's name, where it is called
    const marks: Record<string, string> = { bash: "< <(pr0g ", zsh: "$(pr0g ", fish: "(pr0g ", nu: "^pr0g ", pwsh: "$completionArgs += @(" };
    const parts: string[] = [];
    let at = -1, from = 0;
    for (;;) {
      at = script.indexOf(marks[shell], from);
      if (at < 0) break;
      from = at + marks[shell].length;
      parts.push(script.slice(from));
      if (shell !== "zsh") break;
    }
    sx.assert(parts.length === (shell === "zsh" ? 2 : 1), "the script does not call the program");
    for (const p of parts) {
      const ws = words(sx, shell, p, args.length);
      sx.assert(ws !== null, "a quote is left open in the script");
      sx.assert(ws !== null && ws.length === args.length && sx.eq(ws, args), "the script calls the program with other arguments");
    }
  },
};
