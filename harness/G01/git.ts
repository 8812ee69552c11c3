import { createGitParsers, gitBranch, gitCommit, gitRef, gitRemote, gitRemoteBranch, gitTag } from "@repo/packages/git/src/index.ts";
import { mix } from "../_lib/mix.ts";
import { repo } from "../_lib/model_git.ts";
import { proc } from "../_lib/model_process.ts";

const DIRECT: any = { branch: gitBranch, tag: gitTag, remote: gitRemote, commit: gitCommit, ref: gitRef, remoteBranch: (o: any) => gitRemoteBranch("origin", o) };
const NAME: any = [["a", "c"], "/"];
const HEX: any = [["0", "9"], ["a", "f"]];
const LIST: any = { branch: "listBranches", tag: "listTags", remote: "listRemotes", remoteBranch: "listBranches" };
const BASE = "abc0123456789abcdef0123456789abcdef01234";
/** three object names which differ at unknown places, if they do */
function oids(sx: any, where: number): string[] {
  const o = [0, 1, 2].map((i) => {
    const at: any = {};
    for (let j = 0; j < 40; j++) at[j] = j === where || (i === 2 && j === 39) ? HEX : BASE[j];
    return sx.str("o" + i, { len: 40, at });
  });
  // no two objects have one name
  for (const [a, b] of [[0, 1], [0, 2], [1, 2]]) sx.assume(sx.not(sx.eq(o[a], o[b])));
  return o;
}
export default {
  name: "git",
  bounds: "the six parsers, made directly or by createGitParsers(), with own messages or none, the directory set (by the parser, the maker or both) or not, in a repository of 0-3 names of 1-2 symbolic characters, three objects that differ in 1-2 symbolic places, and listings that fail or not; inputs and prefixes of 0-2 (names) and 0-41 (objects) characters with up to 3 symbolic ones; depths 1-3 or none",
  assumptions: ["isomorphic-git is a model: a repository is lists of names and of objects"],
  covers: ["named", "not named", "listing fails", "object", "ambiguous", "no object", "malformed", "suggested", "no suggestion", "object suggested", "remote missing"],
  cases(tier: string) {
    const out: any[] = [];
    let m = 0;
    const add = (...c: any[]) => { m++; if (tier !== "quick" || c[0] === "object" || c[1] === "remoteBranch" || mix(m) % 3 === 0) out.push(c); };
    for (const k of Object.keys(LIST)) for (const via of [0, 1, 2, 3]) for (const own of [0, 1]) for (const fault of ["", "NotFoundError", "other"]) for (const n of [0, 1, 3]) for (const l of [0, 1, 2]) {
      if (fault !== "" && (n !== 1 || l !== 1)) continue;
      add("parse", k, via, own, fault, n, l);
      if (own === 0) add("suggest", k, via, 0, fault, n, l);
    }
    for (const k of ["commit", "ref"]) for (const via of [0, 1, 2, 3]) for (const own of [0, 1]) for (const where of [3, 7, 39]) for (const l of [0, 3, 4, 5, 8, 39, 40, 41]) if (via === 0 || l === 4 || l === 8) add("object", k, via, own, where, l);
    for (const l of [1, 2]) for (const via of [0, 1]) add("name", "ref", via, 0, 0, l);
    for (const k of ["commit", "ref"]) for (const depth of [null, 1, 2, 3]) for (const where of [3, 6, 7, 39]) for (const l of [0, 1, 4, 8, 40]) for (const fault of ["", "log"]) if (fault === "" || l === 1) add("shorten", k, depth, where, l, fault);
    for (let i = 0; i < 12; i++) out.push(["bad", i]);
    return out;
  },
  async run(sx: any) {
    const [what, k, via, own] = sx.case;
    Object.assign(repo, { branches: [], tags: [], remotes: [], remoteBranches: {}, oids: [], commits: [], asked: [], fault: undefined, resolved: (t: string, i: number) => t + i });
    proc.cwd = () => "/cwd";
    const calls: any[] = [];
    const mine = (name: string) => (...a: any[]) => { calls.push([name, ...a]); return [{ type: "text", text: name }]; };
    const errors: any = own === 1 ? { notFound: mine("notFound"), listFailed: mine("listFailed"), invalidFormat: mine("invalidFormat"), remoteNotFound: mine("remoteNotFound") } : undefined;
    const base: any = what === "shorten" && via !== null ? { suggestionDepth: via } : {};
    if (errors) base.errors = errors;
    let p: any, dir = "/cwd";
    if (what !== "bad") {
      if (what === "shorten" || via === 0) p = DIRECT[k](base);
      else if (via === 1) p = DIRECT[k]({ ...base, dir: dir = "/set" });
      else {
        const maker = createGitParsers(via === 2 ? { ...base, dir: dir = "/set" } : { dir: "/other", metavar: "M" as any });
        const o: any = via === 2 ? undefined : { ...base, dir: dir = "/set" };
        p = k === "remoteBranch" ? maker.remoteBranch("origin", o) : (maker as any)[k](o);
        if (via === 3) sx.assert(p.metavar === "M", "the settings of createGitParsers() do not reach its parsers");
      }
      sx.assert(p.mode === "async", "a parser that reads a repository is not asynchronous");
    }
    const collect = async (x: any) => { const r: any[] = []; for await (const s of p.suggest(x)) r.push(s); return r; };
    const inDir = () => sx.assert(repo.asked.length > 0 && repo.asked.every((a: any) => a[1].dir === dir), "another directory than the one set is read");
    const boom: any = (f: string) => f === "other" ? new Error("x") : Object.assign(new Error("x"), { code: f });
    const has = (e: any, s: any) => e.some((t: any) => (t.type === "value" && sx.is(sx.eq(t.value, s))) || (t.type === "values" && t.values.some((v: any) => sx.is(sx.eq(v, s)))));
    if (what === "parse" || what === "suggest") {
      const [, , , , fault, n, l] = sx.case;
      const names = Array.from({ length: n }, (_, i) => sx.str("n" + i, { len: 1 + (i + l + n) % 2, chars: NAME }));
      const s = sx.str("s", { len: l, chars: NAME });
      const known = k !== "remoteBranch" || sx.flag("known");
      // what must not be looked at has other names
      Object.assign(repo, { branches: [s + "b"], tags: [s + "t"], remotes: known ? ["up", "origin"] : ["up"], remoteBranches: { up: [s, "x"] } });
      if (k === "remote") repo.remotes = names;
      else if (k === "branch") repo.branches = names;
      else if (k === "tag") repo.tags = names;
      else if (known) repo.remoteBranches.origin = names;
      const shown = k === "remoteBranch" && !known ? [] : names;
      if (fault !== "") repo.fault = [LIST[k], boom(fault)];
      if (what === "suggest") {
        const got = await collect(s);
        inDir();
        const want = fault !== "" ? [] : shown.filter((x: any) => x.length >= l && sx.is(sx.eq(x.slice(0, l), s)));
        sx.cover(want.length ? "suggested" : "no suggestion");
        sx.assert(got.every((g: any) => g.kind === "literal") && sx.is(sx.eq(got.map((g: any) => g.text), want)), "the names offered are not those of the repository that start with the prefix");
        return;
      }
      const r = await p.parse(s);
      inDir();
      sx.observe("ok", r.success);
      if (fault !== "") {
        sx.cover("listing fails");
        sx.assert(!r.success && r.error.length > 0, "a repository that cannot be read accepts a name");
        if (own) sx.assert(sx.eq(calls, [["listFailed", dir]]), "the message for a failed listing is not the one set");
        else if (fault === "NotFoundError") sx.assert(has(r.error, dir), "a directory that is no repository is not named");
        return;
      }
      const ok = shown.some((x: any) => x.length === l && sx.is(sx.eq(x, s)));
      sx.cover(ok ? "named" : "not named");
      sx.assert(r.success === ok, ok ? "a name the repository has is refused" : "a name the repository does not have is accepted");
      if (ok) return sx.assert(sx.eq([r.value, p.format(r.value)], [s, s]), "a name is not returned as it is");
      if (k === "remoteBranch" && !known) {
        sx.cover("remote missing");
        if (own) sx.assert(sx.eq(calls, [["remoteNotFound", "origin", ["up"]]]), "the message for a missing remote is not the one set");
        else sx.assert(has(r.error, "origin") && has(r.error, "up"), "a missing remote is not told with those there are");
        return;
      }
      if (own) sx.assert(sx.eq(calls, [["notFound", s, shown]]) && sx.eq(r.error, [{ type: "text", text: "notFound" }]), "the message for an unknown name is not the one set");
      else sx.assert(has(r.error, s) && shown.every((x: any) => has(r.error, x)), "an unknown name is not told with those there are");
      return;
    }
    if (what === "name") {
      const l = sx.case[5];
      repo.branches = [sx.str("b0", { len: l, chars: NAME }), sx.str("b1", { len: 2, chars: NAME })];
      repo.tags = [sx.str("t0", { len: 1, chars: NAME })];
      repo.oids = [BASE];
      const s = sx.str("s", { len: l, chars: NAME });
      const r = await p.parse(s);
      inDir();
      const at = repo.tags.findIndex((x: any) => x.length === l && sx.is(sx.eq(x, s))), bt = repo.branches.findIndex((x: any) => x.length === l && sx.is(sx.eq(x, s)));
      const want = at >= 0 ? "t" + at : bt >= 0 ? "b" + bt : sx.is(sx.eq(s, BASE.slice(0, l))) ? BASE : undefined;
      sx.cover(want === undefined ? "not named" : "named");
      sx.assert(r.success === (want !== undefined) && (want === undefined || sx.is(sx.eq(r.value, want))), "a reference is not resolved to the object the repository gives for it");
      return;
    }
    if (what === "object") {
      const where = sx.case[4], l = sx.case[5];
      const all = repo.oids = oids(sx, where);
      const at: any = {};
      for (let j = 0; j < l; j++) at[j] = j === where || j === l - 1 ? [["0", "9"], ["a", "g"], "G", "-"] : BASE[j] ?? "0";
      const s = l === 0 ? "" : sx.str("s", { len: l, at });
      const r = await p.parse(s);
      const hex = l >= 4 && l <= 40 && sx.test(/^[0-9a-fA-F]*$/, s);
      if (k === "commit" && !sx.is(hex)) {
        sx.cover("malformed");
        sx.assert(!r.success && repo.asked.length === 0, "a text that is no abbreviated commit is looked up");
        if (own) sx.assert(sx.eq(calls, [["invalidFormat", s]]), "the message for a malformed commit is not the one set");
        else sx.assert(has(r.error, s), "a malformed commit is not named");
        return;
      }
      inDir();
      const hits = all.filter((o) => l <= 40 && sx.is(sx.eq(o.slice(0, l), s)));
      sx.cover(hits.length === 1 ? "object" : hits.length === 0 ? "no object" : "ambiguous");
      sx.assert(r.success === (hits.length === 1), hits.length === 1 ? "an object the repository has is refused" : "an abbreviation of no or several objects is accepted");
      if (hits.length === 1) return sx.assert(sx.eq(r.value, hits[0]), "an abbreviation is not expanded to the object's whole name");
      if (own && hits.length === 0) sx.assert(calls.length === 1 && calls[0][0] === "notFound" && sx.is(sx.eq(calls[0][1], s)), "the message for an unknown object is not the one set");
      else {
        sx.assert(calls.length === 0 && has(r.error, s), "an unknown or ambiguous object is not named");
        sx.assert(r.error.some((t: any) => t.type === "text" && /ambiguous/.test(t.text)) === (hits.length > 1), "an ambiguous abbreviation is told as something else");
      }
      return;
    }
    if (what === "shorten") {
      const [, , depth, where, l, fault] = sx.case;
      const all = oids(sx, where);
      const line = sx.str("m", { len: 2, at: { 0: [["a", "b"]], 1: [["a", "b"], "\n"] } });
      repo.oids = all;
      repo.commits = all.map((oid, i) => ({ oid, commit: { message: i === 1 ? line + "z" : "c" + i } }));
      if (k === "ref") Object.assign(repo, { branches: ["abc0123", "zz"], tags: ["abt", "zz"] });
      if (fault) repo.fault = ["log", new Error("x")];
      const at: any = {};
      for (let j = 0; j < l; j++) at[j] = j === where || j === 0 ? [["0", "9"], ["a", "f"]] : BASE[j];
      const s = l === 0 ? "" : sx.str("s", { len: l, at });
      const got = await collect(s);
      inDir();
      if (fault) return sx.assert(got.length === 0, "a history that cannot be read gives suggestions");
      const logged = repo.commits.slice(0, depth ?? 15), fit = logged.filter((c: any) => sx.is(sx.eq(c.oid.slice(0, l), s)));
      const want: any[] = [];
      if (k === "ref") for (const x of ["abc0123", "zz", "abt"]) if (x.length >= l && sx.is(sx.eq(x.slice(0, l), s))) want.push([x, undefined]);
      for (const c of fit) {
        let n = Math.max(7, l);
        while (n < 40 && fit.some((d: any) => d !== c && sx.is(sx.eq(d.oid.slice(0, n), c.oid.slice(0, n))))) n++;
        const text = c.oid.slice(0, n);
        if (want.some((w) => w[0].length === n && sx.is(sx.eq(w[0], text)))) continue;
        want.push([text, c === repo.commits[1] ? (sx.is(sx.eq(line[1], "\n")) ? line[0] : line + "z") : c.commit.message]);
      }
      sx.cover(fit.length ? "object suggested" : "no suggestion");
      sx.assert(sx.eq(got.map((g: any) => g.text), want.map((w) => w[0])), "the commits offered are not the latest ones with the prefix, shortened as far as they stay apart");
      for (let i = 0; i < want.length; i++) {
        const d = got[i].description;
        if (want[i][1] === undefined) sx.assert(d === undefined, "a name is described as a commit");
        else sx.assert(Array.isArray(d) && has(d, want[i][1]), "a commit is not described by the first line of its message");
      }
      return;
    }
    // what is set wrongly is refused when the parser is made
    sx.cover("malformed");
    const c = sx.str("c", { len: 1, chars: [[0x20, 0x7e]] });
    const bad = [() => gitBranch({ suggestionDepth: 0 }), () => gitRef({ suggestionDepth: 1.5 }), () => gitCommit({ suggestionDepth: -1 }), () => gitTag({ suggestionDepth: "3" as any }), () => gitRemoteBranch(""), () => gitRemoteBranch(" " + c), () => gitRemoteBranch(c + "\n"), () => gitRemoteBranch(undefined as any), () => gitBranch({ metavar: "" as any }), () => gitRemote({ suggestionDepth: NaN }), () => gitRef({ suggestionDepth: Infinity }), () => createGitParsers({ suggestionDepth: 0 }).commit()][k];
    let threw: any;
    try { bad(); } catch (e) { threw = e; }
    sx.assert(threw instanceof TypeError || threw instanceof RangeError, "a setting that makes no sense is taken");
  },
};
