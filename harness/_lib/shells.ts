// How the shells' scripts read what the program prints. The program prints chunks, each as a line of its own.
export interface Rec { kind: "literal" | "file"; text?: string; description?: string; type?: string; extensions?: string; pattern?: string; hidden?: string }
const MARK = "__FILE__:";
/** splits at every separator; the positions are decided one by one */
export function splitAt(sx: any, s: string, sep: string, max = Infinity): string[] {
  const out: string[] = [];
  let from = 0;
  for (let i = 0; i < s.length && out.length < max - 1; i++) if (sx.is(sx.eq(s[i], sep))) { out.push(s.slice(from, i)); from = i + 1; }
  out.push(s.slice(from));
  return out;
}
// `%3A` to `:`, and then `%25` to `%`
function unescape(sx: any, s: string): string {
  for (const [code, c] of [["%3A", ":"], ["%25", "%"]]) {
    let out = "";
    for (let i = 0; i < s.length;) {
      if (i + 3 <= s.length && sx.is(sx.eq(s.slice(i, i + 3), code))) { out += c; i += 3; } else { out += s[i]; i++; }
    }
    s = out;
  }
  return s;
}
export function readRecords(sx: any, shell: string, chunks: string[]): Rec[] {
  let all = "";
  for (const c of chunks) all += c + "\n";
  const out: Rec[] = [];
  for (const line of splitAt(sx, all, "\n")) {
    if (line.length === 0) continue;
    const fields = shell === "bash" ? [line] : splitAt(sx, line, shell === "zsh" ? "\0" : "\t");
    if (sx.is(line.startsWith(MARK))) {
      const parts = splitAt(sx, fields[0], ":");
      const description = shell === "pwsh" ? fields[2] : fields[1];
      // whatever follows the fifth field is no part of the request
      out.push({ kind: "file", type: parts[1], extensions: parts[2], pattern: unescape(sx, parts[3] ?? ""), hidden: parts.slice(4).join(":"), description });
    } else {
      const description = shell === "bash" ? undefined : shell === "pwsh" ? fields[2] : fields[1];
      out.push({ kind: "literal", text: fields[0], description });
      if (shell === "pwsh") sx.assert(fields.length === 3 && sx.eq(fields[1], fields[0]), "PowerShell's record has not three fields, or lists another text than it inserts");
      if (shell === "zsh") sx.assert(fields.length === 3 && fields[2].length === 0, "zsh's record has not two terminated fields");
      if (shell === "fish" || shell === "nu") sx.assert(fields.length === 2, "a record has not two fields");
    }
  }
  return out;
}
/** control characters a transport cannot carry are read as blanks */
export function blanks(sx: any, s: string): string {
  let out = "";
  for (const c of s) out += sx.is(sx.charIn(c, ["\t", "\n", "\r", "\0"])) ? " " : c;
  return out;
}
