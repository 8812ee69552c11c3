import { bash, fish, nu, pwsh, zsh } from "@optique/core/completion";
import { message, text } from "@optique/core/message";
import { blanks, readRecords, type Rec } from "../_lib/shells.ts";

const SHELLS: Record<string, any> = { bash, fish, nu, pwsh, zsh };
const ANY = [[0, 0xd7ff]];
const KEYS: (keyof Rec)[] = ["text", "type", "extensions", "pattern", "hidden"];
// L a word, D a word with a description, F a file request, E one with extensions, H one for hidden entries
const SEQ = ["", "L", "D", "F", "E", "H", "LL", "DL", "DD", "LF", "FL", "HD", "EF"];
const LONG = ["LDL", "DFD"];
export default {
  name: "record",
  bounds: "each of the 5 shells; lists of 0-2 (thorough: 3) suggestions (13 (15) kinds of list): words of 1-3 and descriptions of 0-2 characters of any kind (also control characters, blanks, colons), file requests for files, directories or both, with patterns of 0-3 characters of any kind, 0-2 extensions of 1-2 letters with or without their period, hidden entries or not",
  assumptions: ["a word does not begin with __FILE__:", "the scripts split and decode records as modelled: lines, then tabs (zsh: NUL), colons, %3A and %25"],
  covers: ["word", "description", "file request", "pattern with a colon or percent sign", "control character"],
  cases: (tier: string) => Object.keys(SHELLS).flatMap((s) => (tier === "quick" ? SEQ : [...SEQ, ...LONG]).flatMap((q) => (tier === "quick" ? [0] : [0, 1]).map((more) => [s, q, more]))),
  run(sx: any) {
    const [shell, seq, more] = sx.case;
    const sugg: any[] = [], want: Rec[] = [];
    const one = seq.length === 1;
    [...seq].forEach((k: string, i: number) => {
      if (k === "L" || k === "D") {
        const t = sx.str("t" + i, { min: 1, max: (one ? 3 : seq.length === 2 ? 2 : 1) + more, chars: ANY });
        const s: any = { kind: "literal", text: t };
        const w: Rec = { kind: "literal", text: blanks(sx, t), description: shell === "bash" ? undefined : "" };
        if (k === "D") {
          const d = sx.str("d" + i, { min: 0, max: (one ? 2 : 1) + more, chars: [[0x20, 0x7e], "\0", "\t", "\n", "\r"] });
          s.description = [text(d)];
          if (shell !== "bash") w.description = undefined;
          (w as any).d = d;
          sx.cover("description");
        }
        sugg.push(s); want.push(w); sx.cover("word");
        if (!sx.is(sx.eq(w.text, t))) sx.cover("control character");
        return;
      }
      const p = sx.str("p" + i, { min: 0, max: (one ? 3 : 1) + more, chars: ANY });
      const type = one ? sx.pick("type" + i, ["file", "directory", "any"]) : ["any", "file", "directory"][i];
      const exts: string[] = k === "E" ? [sx.str("x" + i, { min: 1, max: 2, chars: [["a", "z"]] }), sx.str("y" + i, { len: 1, chars: [["a", "z"]] })] : [];
      const dot = k === "E" && sx.flag("dot" + i);
      const s: any = { kind: "file", type };
      if (k !== "F" || i === 0) s.pattern = p;
      if (k === "E") s.extensions = exts.map((x) => dot ? "." + x : x);
      if (k === "H") s.includeHidden = true;
      if (k === "H") s.description = message`Hidden.`;
      sugg.push(s);
      want.push({ kind: "file", type, pattern: s.pattern === undefined ? "" : blanks(sx, p), extensions: exts.join(","), hidden: k === "H" ? "1" : "0" });
      sx.cover("file request");
      if (s.pattern !== undefined && [...p].some((c) => sx.is(sx.charIn(c, [":", "%"])))) sx.cover("pattern with a colon or percent sign");
    });
    const chunks: string[] = [];
    for (const c of SHELLS[shell].encodeSuggestions(sugg)) chunks.push(c);
    const got = readRecords(sx, shell, chunks);
    sx.observe("n", got.length);
    sx.assert(got.length === want.length, "the shell reads another number of records than there are suggestions");
    if (got.length !== want.length) return;
    got.forEach((g, i) => {
      sx.assert(g.kind === want[i].kind, "a word is read as a file request, or a file request as a word");
      for (const k of KEYS) {
        const a: any = g[k], b: any = want[i][k];
        sx.assert((a === undefined) === (b === undefined) && (a === undefined || sx.eq(a, b)), k === "text" ? "the shell reads another word" : "the shell reads another " + k + " in a file request");
      }
      const d = (want[i] as any).d;
      if (shell !== "bash" && d !== undefined) {
        // descriptions are formatted messages: a blank is a blank, everything else stays (M01)
        const squeeze = (s: string) => { let o = ""; for (const c of s) if (!sx.is(sx.charIn(c, [" ", "\t", "\n", "\r", "\0"]))) o += c; return o; };
        sx.assert(sx.eq(squeeze(g.description ?? ""), squeeze(d)), "the shell reads another description");
      }
    });
  },
};
