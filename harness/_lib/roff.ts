// A reader for the part of the roff language a man page uses. It turns a
// document into the requests and the text a terminal would show:
//   {c: "SH", a: [args]}  a request line;  {t: text}  text lines joined by "\n"
// Anything a reader would not show as text (an unknown escape, a line that is
// taken for a request) is returned as such, or in `bad`.
export const REQUESTS = ["TH", "SH", "PP", "TP", "B", "BR"];
export function readRoff(sx: any, doc: string, opts: { bareHyphen?: boolean } = {}): { items: any[]; bad: string } {
  const items: any[] = [];
  let bad = "", text: string | undefined, font = "R", i = 0;
  const n = doc.length, at = (k: number, c: string) => k < n && sx.is(doc[k] === c);
  const flush = () => { if (text !== undefined && text !== "") items.push({ t: text }); text = undefined; };
  const escape = (inArg: boolean): string => {
    // doc[i] is the backslash
    const two = (a: string, b: string) => at(i + 1, "(") && at(i + 2, a) && at(i + 3, b);
    if (at(i + 1, "\\")) { if (inArg) bad = "an escape in a request's argument is read twice"; i += 2; return "\\"; }
    if (at(i + 1, "-")) { i += 2; return "-"; }
    if (at(i + 1, "&")) { i += 2; return ""; }
    if (at(i + 1, "f")) {
      const f = at(i + 2, "B") ? "B" : at(i + 2, "I") ? "I" : at(i + 2, "R") ? "R" : "";
      if (f === "") bad = "unknown font";
      font = f; i += 3; return "";
    }
    if (two("d", "q")) { i += 4; return '"'; }
    if (two("r", "s")) { i += 4; return "\\"; }
    bad = "text is read as an escape sequence"; i += 2; return "";
  };
  while (i < n) {
    // at the start of a line
    if (at(i, ".") || at(i, "'")) {
      i++;
      let name = "";
      while (i < n && !at(i, "\n") && !at(i, " ")) { if (at(i, "\\")) break; name += doc[i++]; }
      const known = REQUESTS.find((r) => r.length === name.length && sx.is(sx.eq(name, r)));
      if (known === undefined || !["TH", "SH", "PP", "TP", "B", "BR"].includes(known)) { bad = "a line of text is read as a request"; return { items, bad }; }
      const a: string[] = [];
      while (i < n && !at(i, "\n")) {
        if (at(i, " ")) { i++; continue; }
        let s = "";
        if (at(i, '"')) {
          i++;
          for (;;) {
            if (i >= n || at(i, "\n")) { bad = "an argument's quotation is not closed"; break; }
            if (at(i, '"')) { if (at(i + 1, '"')) { s += '"'; i += 2; continue; } i++; break; }
            if (at(i, "\\")) { s += escape(true); continue; }
            s += doc[i++];
          }
          if (i < n && !at(i, "\n") && !at(i, " ")) bad = "text follows a closing quotation mark";
        } else while (i < n && !at(i, "\n") && !at(i, " ")) { if (at(i, "\\")) { s += escape(true); continue; } s += doc[i++]; }
        a.push(s);
      }
      i++;
      flush();
      items.push({ c: known, a });
      continue;
    }
    let line = "";
    while (i < n && !at(i, "\n")) {
      if (at(i, "\\")) { line += escape(false); continue; }
      if (!opts.bareHyphen && font === "B" && at(i, "-")) bad = "a hyphen of a name can be broken at";
      line += doc[i++];
    }
    if (font !== "R") bad = "the font is not restored";
    i++;
    text = text === undefined ? line : text + "\n" + line;
    // a newline at the very end of the document
  }
  if (n > 0 && at(n - 1, "\n")) text = (text ?? "") + (text === undefined ? "" : "\n");
  flush();
  return { items, bad };
}
// what a message says, as the items a reader should find
export function plain(sx: any, s: string): any[] {
  const items: any[] = [];
  let t = "", i = 0, any = false;
  const n = s.length, nl = (k: number) => k < n && sx.is(s[k] === "\n");
  while (i < n) {
    if (nl(i) && nl(i + 1)) {
      if (any && t !== "") items.push({ t });
      t = ""; any = false;
      items.push({ c: "PP", a: [] });
      while (nl(i)) i++;
      continue;
    }
    t += s[i++]; any = true;
  }
  if (any) items.push({ t });
  return items;
}
export function sameItems(sx: any, got: any[], want: any[]): any {
  if (got.length !== want.length) return false;
  let ok: any = true;
  for (let k = 0; k < got.length; k++) {
    const g = got[k], w = want[k];
    if (g.c !== w.c) return false;
    if (g.c === undefined) { if (g.t.length !== w.t.length) return false; ok = sx.and(ok, sx.eq(g.t, w.t)); continue; }
    if (g.a.length !== w.a.length) return false;
    for (let j = 0; j < g.a.length; j++) { if (g.a[j].length !== w.a[j].length) return false; ok = sx.and(ok, sx.eq(g.a[j], w.a[j])); }
  }
  return ok;
}
