// What a directory of command modules means, as the documentation states it.
export const sortExts = (exts: string[]) => [...exts].sort((a, b) => b.length - a.length);
/** The command path a file stands for, or undefined when the file is no command module. */
export const commandPath = (sx: any, dirs: string[], name: any, exts: string[], entry: string | false): any[] | undefined => {
  const is = (b: any) => sx.is(b);
  for (const d of [".d.ts", ".d.mts", ".d.cts"]) if (is(name.endsWith(d))) return undefined;
  for (const e of sortExts(exts)) {
    if (!is(name.endsWith(e))) continue;
    const stem = name.slice(0, name.length - e.length);
    if (is(stem.endsWith(".test")) || is(stem.endsWith(".spec"))) return undefined;
    if (entry !== false && is(sx.eq(stem, entry))) return [...dirs];
    return [...dirs, stem];
  }
  return undefined;
};
export const samePath = (sx: any, a: any[], b: any[]) => a.length === b.length && a.every((s, i) => sx.is(sx.eq(s, b[i])));
