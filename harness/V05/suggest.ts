import { path } from "@repo/packages/run/src/valueparser.ts";
export default {
  name: "suggest",
  bounds: "every prefix of 0-5 (thorough: 9) printable characters, 3 types",
  covers: ["hidden", "plain"],
  cases: (tier: string) => [0, 1, 2, 3, 4, 5, ...(tier === "quick" ? [] : [6, 7, 8, 9])].flatMap((l) => ["either", "file", "directory"].map((t) => [l, t])),
  run(sx: any) {
    const [l, t] = sx.case;
    const p = sx.str("p", { len: l, chars: [[0x20, 0x7e]] });
    const got: any[] = [...(path({ type: t, extensions: t === "file" ? [".x"] : undefined } as any).suggest as any)(p)];
    sx.assert(got.length === 1 && got[0].kind === "file", "path completion is not delegated to the shell");
    sx.assert(sx.eq(got[0].pattern, p), "the completion pattern is not the prefix typed");
    sx.assert(got[0].type === (t === "either" ? "any" : t), "the kind of files to complete is wrong");
    sx.assert(sx.eq(got[0].extensions, t === "file" ? [".x"] : undefined), "the extensions to complete are wrong");
    let b = l;
    while (b > 0 && !sx.is(p[b - 1] === "/")) b--;
    // dot files are wanted when the last segment typed begins with a dot
    if (b < l) {
      const dot = sx.is(p[b] === ".") && !(l - b === 2 && sx.is(p[b + 1] === "."));
      sx.cover(dot ? "hidden" : "plain");
      sx.observe("hidden", got[0].includeHidden);
      sx.assert(!!got[0].includeHidden === dot, "hidden files are offered or withheld wrongly");
    }
  },
};
