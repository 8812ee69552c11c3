// A stand-in for isomorphic-git: a repository of named branches, tags and remotes, and of objects.
export const repo: any = { branches: [], tags: [], remotes: [], remoteBranches: {}, oids: [], commits: [], asked: [], fault: undefined };
function ask(op: string, o: any) {
  repo.asked.push([op, o]);
  if (repo.fault?.[0] === op) throw repo.fault[1];
}
const none = (code: string) => Object.assign(new Error("x"), { code });
export async function listBranches(o: any) { ask("listBranches", o); return o.remote === undefined ? [...repo.branches] : [...(repo.remoteBranches[o.remote] ?? [])]; }
export async function listTags(o: any) { ask("listTags", o); return [...repo.tags]; }
export async function listRemotes(o: any) { ask("listRemotes", o); return repo.remotes.map((remote: any) => ({ remote, url: "u" })); }
export async function log(o: any) { ask("log", o); return repo.commits.slice(0, o.depth); }
export async function resolveRef(o: any) {
  ask("resolveRef", o);
  for (const [names, tag] of [[repo.tags, "t"], [repo.branches, "b"]]) for (let i = 0; i < names.length; i++) if (names[i] === o.ref) return repo.resolved(tag, i);
  throw none("NotFoundError");
}
export async function expandOid(o: any) {
  ask("expandOid", o);
  const hits = repo.oids.filter((x: string) => x.startsWith(o.oid));
  if (hits.length === 1) return hits[0];
  throw none(hits.length === 0 ? "NotFoundError" : "AmbiguousError");
}
export async function readObject(o: any) { ask("readObject", o); return {}; }
