// A stand-in for valibot 1 during exploration (replays use the real library).
const ok = (output: any) => ({ typed: true, success: true, output, issues: undefined });
const bad = (message: any) => ({ typed: false, success: false, output: undefined, issues: [{ message }] });
const then = (x: any, f: (v: any) => any) => x instanceof Promise ? x.then(f) : f(x);
const schema = (type: string, run: (v: any) => any, more: any = {}): any => ({ kind: "schema", type, async: false, "~run": run, ...more });
export const safeParse = (s: any, v: any): any => { const r = s["~run"](v); return r instanceof Promise ? { typed: (r as any).typed, success: true } : r; };
export const safeParseAsync = async (s: any, v: any): Promise<any> => await s["~run"](v);
const typed = (type: string) => (m?: any) => schema(type, (v) => typeof v === type ? ok(v) : bad(m ?? "Invalid type"));
export const string = typed("string"), boolean = typed("boolean"), number = typed("number");
export const picklist = (options: any[], m?: any) => schema("picklist", (v) => options.includes(v) ? ok(v) : bad(m ?? "Invalid type"), { options });
export const literal = (l: any, m?: any) => schema("literal", (v) => v === l ? ok(v) : bad(m ?? "Invalid type"), { literal: l });
export const union = (options: any[], m?: any) => schema("union", (v) => {
  const go = (i: number): any => i === options.length ? bad(m ?? "Invalid type") : then(options[i]["~run"](v), (r: any) => r.success ? r : go(i + 1));
  return go(0);
}, { options });
const wrapper = (type: string, absent: (v: any) => boolean) => (wrapped: any) => schema(type, (v) => absent(v) ? ok(v) : wrapped["~run"](v), { wrapped });
export const optional = wrapper("optional", (v) => v === undefined), nullable = wrapper("nullable", (v) => v === null), nullish = wrapper("nullish", (v) => v == null);
export const pipe = (first: any, ...rest: any[]) => ({
  ...first, pipe: [first, ...rest],
  "~run": (v: any) => rest.reduce((r: any, step: any) => then(r, (x: any) => x.success ? step["~run"](x.output) : x), first["~run"](v)),
});
export const check = (f: (v: any) => boolean, m?: any) => ({ kind: "validation", type: "check", async: false, "~run": (v: any) => f(v) ? ok(v) : bad(m ?? "Invalid input") });
export const checkAsync = (f: (v: any) => any, m?: any) => ({ kind: "validation", type: "check", async: true, "~run": async (v: any) => await f(v) ? ok(v) : bad(m ?? "Invalid input") });
export const pipeAsync = (first: any, ...rest: any[]) => ({ ...pipe(first, ...rest), async: true, "~run": async (v: any) => { let r = await first["~run"](v); for (const s of rest) if (r.success) r = await s["~run"](r.output); return r; } });
export const transform = (f: (v: any) => any) => ({ kind: "transformation", type: "transform", async: false, "~run": (v: any) => ok(f(v)) });
export const minLength = (n: number, m?: any) => ({ kind: "validation", type: "min_length", async: false, "~run": (v: any) => v.length >= n ? ok(v) : bad(m ?? "Invalid length") });
export const lazy = (getter: () => any) => schema("lazy", (v) => getter()["~run"](v), { getter });
export const unknown = () => schema("unknown", ok);
export const fallback = (s: any, d: any) => ({ ...s, fallback: d, "~run": (v: any) => then(s["~run"](v), (r: any) => r.success ? r : ok(d)) });
export const optionalAsync = (w: any) => ({ ...optional(w), async: true });
