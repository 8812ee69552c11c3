import { mix } from "../_lib/mix.ts";
import { createProgramParser, defineCommand } from "@optique/discover";
import { object } from "@optique/core/constructs";
import { option } from "@optique/core/primitives";
import { getDocPage, parse, suggestSync } from "@optique/core/parser";
import { formatUsage } from "@optique/core/usage";

const HID = [undefined, false, true, "usage", "doc", "help"];
const places = (h: any): string[] => h === true ? ["usage", "doc", "sugg"] : h === "help" ? ["usage", "doc"] : h ? [h] : [];
const TREES: string[][] = [["ka", "ka kb", "ka kc", "kd"], ["ka kb", "ka kc", "kd ke kf", "kg"], ["", "ka", "ka kb", "ka kb kc"], ["ka", "ka kb", "ka kb kc", "kx kb"], ["ka kb", "ka kb kc", "kd ke", "kd kf"], ["kb", "ka"]];
// the texts of a command: brief, description, footer
const TEXTS: (string | undefined)[][] = [["brief", undefined, undefined], [undefined, "desc", undefined], ["brief", "desc", "foot"], [undefined, undefined, undefined]];
const msg = (s: string | undefined): any => s === undefined ? undefined : [{ type: "text", text: s }];
const flat = (m: any): any => m === undefined ? undefined : m.map((t: any) => t.text).join("");
export default {
  name: "program",
  bounds: "6 programs of command modules up to three levels deep, parents with and without a command of their own, one symbolic letter in a name; two commands with every hidden setting, each command with one of four sets of texts; both styles of command list; the program's page, every command's and every namespace's page, the usage line, and completion",
  assumptions: ["a command inside a hidden command is hidden where the outer one is", "a command list names a namespace without a command of its own where one of the commands inside it is shown"],
  covers: ["listed", "hidden", "inherited", "namespace", "nested page", "texts"],
  cases(tier: string) {
    const out: any[] = [];
    let m = 0;
    for (let t = 0; t < TREES.length; t++) for (let i = 0; i < TREES[t].length; i++) for (let j = 0; j < i; j++) for (const list of [undefined, "recursive", "top-level"]) for (let x = 0; x < 4; x++) {
      m++;
      if (list === undefined && x > 0) continue;
      if (tier === "quick" && mix(m) % 4 !== 0) continue;
      out.push([t, i, j, list, x]);
    }
    return out;
  },
  run(sx: any) {
    const [ti, hi, hj, list, x] = sx.case;
    const l = sx.str("l", { len: 1, chars: [["l", "n"]] });
    const real = (s: string) => s === "kb" ? "k" + l : s;
    const entries = TREES[ti].map((p: string, k: number) => {
      const path = p === "" ? [] : p.split(" "), hidden = k === hi || k === hj ? HID[sx.choice("h" + k, HID.length)] : undefined;
      const [b, d, f] = TEXTS[(k + x) % 4].map((s) => s && s + k);
      return { path, hidden, b, d, f, opt: "-" + "abcd"[k], command: defineCommand({ parser: object({ o: option(("-" + "abcd"[k]) as any) }), handler() {}, metadata: { hidden, brief: msg(b), description: msg(d), footer: msg(f) } } as any) };
    });
    const program: any = createProgramParser(entries.map((e) => ({ path: e.path.map(real), command: e.command })) as any, { brief: msg("PB"), description: msg("PD"), footer: msg("PF"), ...list && { commandList: list } } as any);
    const at = (path: string[]) => entries.find((e) => e.path.length === path.length && e.path.every((s: string, i: number) => s === path[i]));
    const gone = (path: string[]): Set<string> => new Set(path.flatMap((_, i) => places(at(path.slice(0, i + 1))?.hidden)));
    for (const e of entries) if (e.path.length > 0 && gone(e.path).size > 0) sx.cover(places(e.hidden).length < gone(e.path).size ? "inherited" : "hidden");
    const shown = (page: any): { name: string; text: any }[] => page.sections.flatMap((s: any) => s.entries).filter((e: any) => e.term.type === "command" && !places(e.term.hidden).includes("doc")).map((e: any) => ({ name: e.term.name, text: flat(e.description) }));
    const same = (got: any[], want: any[], where: string) => {
      sx.assert(got.length === want.length, "the command list of " + where + " has other commands than are shown there");
      for (const w of want) {
        const g = got.filter((g) => sx.is(sx.eq(g.name, w.name)));
        sx.assert(g.length === 1, "the command list of " + where + " lacks a command or has it twice");
        sx.assert(sx.eq(g[0]?.text, w.text), "the command list of " + where + " has other texts than the command's");
      }
    };
    // the program's page
    const page: any = getDocPage(program);
    const want: any[] = [];
    for (const e of entries) {
      if (e.path.length === 0) continue;
      if (list !== "top-level") { if (!gone(e.path).has("doc")) want.push({ name: e.path.map(real).join(" "), text: e.b ?? e.d }); continue; }
      const top = [e.path[0]], own = at(top);
      if (own !== undefined ? gone(top).has("doc") : gone(e.path).has("doc")) continue;
      if (own === undefined) sx.cover("namespace");
      if (!want.some((w) => w.name === real(top[0]))) want.push({ name: real(top[0]), text: own && (own.b ?? own.d) });
    }
    if (want.length > 0) sx.cover("listed");
    same(shown(page), want, "the program");
    sx.assert(flat(page.brief) === "PB" && flat(page.description) === "PD" && flat(page.footer) === "PF", "the program's page has other texts than the program");
    const usage = formatUsage("p", program.usage);
    const word = (s: string, w: string) => s.split(/[ ()|\[\]]+/).some((y: string) => y === w);
    const contains = (s: string, y: string) => { for (let i = 0; i + y.length <= s.length; i++) if (sx.is(sx.eq(s.slice(i, i + y.length), y))) return true; return false; };
    for (const e of entries) {
      if (e.path.length === 0) continue;
      const n = real(e.path[e.path.length - 1]), others = entries.filter((o) => o !== e && o.path.includes(e.path[e.path.length - 1]));
      if (others.length === 0) sx.assert(contains(usage, n) === !gone(e.path).has("usage"), gone(e.path).has("usage") ? "a command hidden from the usage is in it" : "a command is missing in the usage");
    }
    // each command's and namespace's page, and completion inside it
    const dirs: string[][] = [[]];
    for (const e of entries) for (let k = 1; k <= e.path.length; k++) if (!dirs.some((d) => d.length === k && d.every((s, i) => s === e.path[i]))) dirs.push(e.path.slice(0, k));
    for (const d of dirs) {
      const kids = dirs.filter((c) => c.length === d.length + 1 && d.every((s, i) => s === c[i])), own = at(d), words = d.map(real);
      const offered = suggestSync(program, [...words, "k"] as any).filter((s: any) => s.kind === "literal").map((s: any) => s.text);
      for (const c of kids) {
        const n = offered.filter((o: any) => sx.is(sx.eq(o, real(c[d.length])))).length;
        if (at(c) || !gone(c).has("sugg")) sx.assert(n === (gone(c).has("sugg") ? 0 : 1), gone(c).has("sugg") ? "a hidden command is offered by completion" : "a command is not offered by completion, or twice");
      }
      sx.assert(offered.length <= kids.length, "completion offers commands that are not there");
      // it works, hidden or not
      if (own) { const r: any = parse(program, [...words, own.opt]); sx.assert(r.success && r.value.command === own.command && r.value.value.o === true, "a command is not run by its name"); }
      if (d.length === 0) continue;
      sx.cover("nested page");
      const pg: any = getDocPage(program, words as any);
      sx.assert(pg !== undefined, "a command has no help page");
      const listed = shown(pg);
      sx.assert(listed.length <= kids.length, "a command's page lists commands that are not inside it");
      for (const c of kids) {
        const o = at(c), g = listed.filter((y) => sx.is(sx.eq(y.name, real(c[d.length]))));
        if (o || !gone(c).has("doc")) sx.assert(g.length === (gone(c).has("doc") ? 0 : 1), gone(c).has("doc") ? "a hidden command is on the help page" : "a command is missing on the help page of the one it is in");
        if (o && g.length === 1) sx.assert(sx.eq(g[0].text, o.b ?? o.d), "a command is listed with another text than its own");
      }
      if (own) {
        sx.cover("texts");
        sx.assert(pg.sections.some((s: any) => s.entries.some((e: any) => e.term.type === "option" && e.term.names.includes(own.opt))), "an option is missing on its command's page");
        sx.assert(flat(pg.brief) === own.b && flat(pg.description) === own.d && flat(pg.footer) === own.f, "a command's page has other texts than the command");
      }
    }
  },
};
