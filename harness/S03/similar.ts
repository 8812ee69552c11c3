import { appendValueHint, appendValueSuggestions, createSuggestionMessage, deduplicateSuggestions, findSimilar, levenshteinDistance } from "@optique/core/suggestion";
import { choice } from "@optique/core/valueparser";

/** the definition, with the sides as given */
function distance(sx: any, a: string, b: string, i = 0, j = 0, memo = new Map<number, number>()): number {
  if (i === a.length) return b.length - j;
  if (j === b.length) return a.length - i;
  const k = i * 64 + j;
  const known = memo.get(k);
  if (known !== undefined) return known;
  const r = sx.is(sx.eq(a[i], b[j])) ? distance(sx, a, b, i + 1, j + 1, memo) : 1 + Math.min(distance(sx, a, b, i + 1, j, memo), distance(sx, a, b, i, j + 1, memo), distance(sx, a, b, i + 1, j + 1, memo));
  memo.set(k, r);
  return r;
}
// names: "@" free
const SETS: [string, string[]][] = [
  ["@@", ["ab", "a@", "Ba"]], ["@b@", ["abc", "@bd", "b"]], ["--@@", ["--ab", "--b@", "-a", "--abc"]], ["@@@", ["aba", "b@a"]], ["ab@", ["abc", "abd", "ab", "abe", "xb"]],
  ["@", ["a", "@", "B"]], ["a@c@", ["abcd", "acbd", "ABC", "abcde"]], ["-@", ["-a", "-A", "-@", "--a"]], ["@@ab", ["aabb", "bbab", "@ab"]], ["", ["a", "@"]], ["abcab@", ["abc", "bcabc", "abcabcabc", "xyzxyz"]], ["a@", ["", "a@b", "ba"]],
];
const OPTS: any[] = [{}, { caseSensitive: true }, { maxDistance: 1 }, { maxDistance: 0 }, { maxSuggestions: 1 }, { maxDistanceRatio: 1, maxDistance: 2, maxSuggestions: 2 }];
export default {
  name: "similar",
  bounds: "pairs of strings of up to 3x4 (thorough: 4x4) symbolic characters; 12 inputs with 2-5 candidates, 1-4 symbolic letters of both cases among them, 6 settings of the thresholds; 3 lists of completion candidates",
  assumptions: ["candidates are ASCII"],
  covers: ["distance", "exact", "some", "cut", "none", "value hint", "merged"],
  cases(tier: string) {
    const out: any[] = [];
    const m = tier === "quick" ? 3 : 4;
    for (let a = 0; a <= m; a++) for (let b = 0; b <= 4; b++) if (tier !== "quick" || a + b < 7) out.push(["distance", a, b]);
    SETS.forEach((_, i) => OPTS.forEach((_, j) => out.push(["find", i, j])));
    SETS.forEach((_, i) => { if (i !== 9 && i !== 11) for (let j = 0; j < 3; j++) out.push(["choice", i, j]); });
    for (let i = 0; i < 3; i++) out.push(["dedup", i, 0]);
    return out;
  },
  run(sx: any) {
    const [what, x, y] = sx.case;
    if (what === "distance") {
      const a = sx.str("a", { len: x, chars: [[0x20, 0x7e], 0xe9, 0x4e2d] }), b = sx.str("b", { len: y, chars: [[0x20, 0x7e], 0xe9, 0x4e2d] });
      sx.cover("distance");
      const d = levenshteinDistance(a, b);
      sx.assert(d === distance(sx, a, b), "the edit distance is wrong");
      sx.assert(levenshteinDistance(b, a) === d, "the edit distance depends on the order");
      return;
    }
    if (what === "dedup") {
      const t = [0, 1, 2].map((i) => sx.str("t" + i, { len: 1, chars: "ab" }));
      const lit = (s: string, d?: string): any => ({ kind: "literal", text: s, ...(d && { description: d }) });
      const file = (more: any): any => ({ kind: "file", type: "file", ...more });
      const list = [[lit(t[0], "1"), lit("a", "2"), lit(t[1], "3"), lit("b"), lit(t[2])], [file({ pattern: t[0] }), file({ pattern: t[1], includeHidden: true }), lit(t[2]), file({ pattern: "a" })], [file({ extensions: ["." + t[0], ".b"] }), file({ extensions: [".b", "." + t[1]] }), file({ type: "directory" }), file({}), file({ type: "any", pattern: t[2] })]][x];
      const key = (s: any) => s.kind === "literal" ? "L" + s.text : s.type + "|" + (s.pattern ?? "") + "|" + [...(s.extensions ?? [])].sort((p: string, q: string) => p < q ? -1 : 1).join(",");
      const copy = JSON.stringify(list), got = deduplicateSuggestions(list);
      sx.assert(sx.eq(JSON.stringify(list), copy), "the candidates are changed in place");
      const want: any[] = [];
      for (const s of list) {
        const at = want.findIndex((w) => sx.is(sx.eq(key(w), key(s))));
        if (at < 0) want.push({ ...s });
        else { sx.cover("merged"); if (s.includeHidden) want[at].includeHidden = true; }
      }
      sx.assert(got.length === want.length && want.every((w, i) => sx.is(sx.eq(w, got[i]))), "candidates are not each offered once");
      return;
    }
    let n = 0;
    const put = (t: string) => { let r = ""; for (const ch of t) r += ch === "@" ? sx.str("n" + n++, { len: 1, chars: "abA" }) : ch; return r; };
    const input = put(SETS[x][0]), cands = SETS[x][1].map(put);
    const o = what === "find" ? OPTS[y] : [{}, { maxDistance: 1 }, { maxSuggestions: 1, maxDistance: 2 }][y];
    const low = (s: string) => o.caseSensitive ? s : s.toLowerCase();
    const seen: [string, number][] = [];
    let exact: string | undefined;
    for (const c of cands) {
      if (exact !== undefined) break;
      if (seen.some(([s]) => sx.is(sx.eq(s, c)))) continue;
      const d = distance(sx, low(input), low(c));
      if (d === 0) exact = c;
      seen.push([c, d]);
    }
    const near = input.length === 0 ? [] : exact !== undefined ? [[exact, 0] as [string, number]] : seen.filter(([, d]) => d <= (o.maxDistance ?? 3) && d / input.length <= (o.maxDistanceRatio ?? 0.5));
    const max = o.maxSuggestions ?? 3;
    const check = (got: readonly string[]) => {
      sx.assert(got.length === Math.min(max, near.length), "not as many similar names as there should be");
      sx.cover(got.length === 0 ? "none" : exact !== undefined ? "exact" : near.length > max ? "cut" : "some");
      let last: [number, number] = [-1, -1];
      const used: string[] = [];
      for (const g of got) {
        const m = near.find(([s]) => sx.is(sx.eq(s, g)));
        sx.assert(m !== undefined, "a name is offered that is not near, or is no name");
        sx.assert(!used.some((u) => sx.is(sx.eq(u, g))), "a name is offered twice");
        used.push(g);
        const rank: [number, number] = [m![1], Math.abs(g.length - input.length)];
        sx.assert(rank[0] > last[0] || rank[0] === last[0] && rank[1] >= last[1], "nearer names do not come first");
        last = rank;
      }
      // whatever is left out is no nearer
      if (near.length > got.length) for (const [s, d] of near) if (!used.some((u) => sx.is(sx.eq(u, s)))) sx.assert(d > last[0] || d === last[0] && Math.abs(s.length - input.length) >= last[1], "a nearer name is left out");
    };
    if (what === "find") {
      const got = findSimilar(input, cands, o);
      check(got);
      const msg = createSuggestionMessage(got);
      const names = msg.filter((t: any) => t.type === "optionName").map((t: any) => t.optionName);
      sx.assert(names.length === got.length && got.every((g, i) => sx.is(sx.eq(g, names[i]))), "the message does not name the similar names");
      sx.assert((msg.length === 0) === (got.length === 0), "there is a message without names");
      sx.assert(sx.eq(findSimilar(input, new Set(cands), o), got), "duplicates change what is offered");
    } else {
      // choice(): the same rules for values
      if (cands.some((c, i) => c === "" || cands.slice(0, i).some((d) => sx.is(sx.eq(c, d))))) return;
      const vp: any = choice(cands as any, { suggest: y === 0 ? "nearest" : o } as any), plainVp: any = choice(cands as any);
      const r = vp.parse(input), p = plainVp.parse(input);
      sx.assert(r.success === p.success, "hints change what is accepted");
      if (r.success) return;
      const hint = r.error.slice(p.error.length);
      const vals = hint.filter((t: any) => t.type === "value").map((t: any) => t.value);
      sx.assert(sx.eq(r.error.slice(0, p.error.length), p.error), "hints change the error before them");
      if (vals.length) sx.cover("value hint");
      check(vals);
    }
  },
};
