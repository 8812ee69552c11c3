// POSIX node:path functions used by the code under test, in executable form so
// that they can run on symbolic strings.  Replays use the real node:path.
const strip = (p: string): string => {
  let n = p.length;
  while (n > 0 && p[n - 1] === "/") n--;
  return p.slice(0, n);
};
const lastSlash = (p: string): number => {
  for (let i = p.length - 1; i >= 0; i--) if (p[i] === "/") return i;
  return -1;
};
export const basename = (p: string): string => {
  const s = strip(p);
  return s.slice(lastSlash(s) + 1);
};
export const dirname = (p: string): string => {
  if (p.length === 0) return ".";
  const s = strip(p);
  if (s.length === 0) return "/";
  const i = lastSlash(s);
  if (i < 0) return ".";
  if (i === 0) return "/";
  if (i === 1 && s[0] === "/") return "//";
  return s.slice(0, i);
};
export const extname = (p: string): string => {
  const b = basename(p);
  if (b === "..") return "";
  for (let i = b.length - 1; i > 0; i--) if (b[i] === ".") return b.slice(i);
  return "";
};
export const sep = "/";
// the POSIX rules, segment by segment
const pieces = (p: string, abs: boolean): string[] => {
  const out: string[] = [];
  for (const s of p.split("/")) {
    if (s.length === 0 || s === ".") continue;
    if (s === "..") {
      if (out.length > 0 && out[out.length - 1] !== "..") out.pop();
      else if (!abs) out.push("..");
    } else out.push(s);
  }
  return out;
};
export const isAbsolute = (p: string): boolean => p.length > 0 && p[0] === "/";
export const normalize = (p: string): string => {
  if (p.length === 0) return ".";
  const abs = p[0] === "/", tail = p[p.length - 1] === "/";
  let s = pieces(p, abs).join("/");
  if (s.length === 0) return abs ? "/" : tail ? "./" : ".";
  if (tail) s += "/";
  return abs ? "/" + s : s;
};
export const resolve = (...ps: string[]): string => {
  let r = "/w/o/r/k";
  for (const p of ps) {
    if (p.length === 0) continue;
    r = p[0] === "/" ? p : r + "/" + p;
  }
  return "/" + pieces(r, true).join("/");
};
export const relative = (from: string, to: string): string => {
  const a = pieces(resolve(from), true), b = pieces(resolve(to), true);
  let n = 0;
  while (n < a.length && n < b.length && a[n] === b[n]) n++;
  return [...a.slice(n).map(() => ".."), ...b.slice(n)].join("/");
};
export const posix = { basename, dirname, extname, isAbsolute, normalize, relative, resolve, sep: "/" };
export default { basename, dirname, extname, isAbsolute, normalize, relative, resolve, sep, posix };
