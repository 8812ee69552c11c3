// Text as words and the gaps between them.
/** the text without ANSI colours and hyperlinks (this reader knows only what the formatters may use) */
export function plain(sx: any, s: string): string {
  let out = "";
  for (let i = 0; i < s.length; i++) {
    if (!sx.is(sx.eq(s[i], "\x1b"))) { out += s[i]; continue; }
    i++;
    if (s[i] === "[") { i++; while (i < s.length && !sx.is(sx.charIn(s[i], [["@", "~"]]))) i++; continue; }
    if (s[i] === "]") { while (i < s.length && !(s[i] === "\x1b" && s[i + 1] === "\\")) i++; i++; continue; }
    if (s[i] === "\\") continue;
    sx.fail("an unknown escape sequence is written");
  }
  return out;
}
/** gaps: "" none, " " blanks, "1" one line break, "2" more */
export type Item = { c: string; gap: string };
export function items(sx: any, s: string): { list: Item[]; tail: string } {
  const list: Item[] = [];
  let gap = "";
  for (let i = 0; i < s.length; i++) {
    if (sx.is(sx.eq(s[i], "\n"))) gap = gap === "1" || gap === "2" ? "2" : "1";
    else if (sx.is(sx.eq(s[i], " "))) gap = gap === "" ? " " : gap;
    else { list.push({ c: s[i], gap }); gap = ""; }
  }
  return { list, tail: gap };
}
