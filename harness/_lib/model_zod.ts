// A stand-in for zod 4 during exploration (replays use the real library): the
// schema kinds, definitions and results that matter to a reader of one string.
export class ZodError extends Error {
  issues: any[];
  constructor(issues: any[]) { super("zod"); this.issues = issues; }
}
class $ZodAsyncError extends Error {}
const ok = (data: any) => ({ success: true, data });
const bad = (message: any) => ({ success: false, error: new ZodError([{ message, path: [], code: "custom" }]) });
const msg = (m: any, d: string) => m === undefined ? d : typeof m === "string" || m?.length !== undefined ? m : m.message ?? m.error ?? d;
class Schema {
  _def: any;
  run: (v: any) => any; // a result, or a promise of one
  constructor(def: any, run: (v: any) => any) { this._def = def; this.run = run; }
  safeParse(v: any): any {
    const r = this.run(v);
    if (r instanceof Promise) { r.catch(() => {}); throw new $ZodAsyncError("async"); }
    return r;
  }
  async safeParseAsync(v: any): Promise<any> { return await this.run(v); }
  wrap(type: string, run: (v: any) => any, more: any = {}) { return new Schema({ type, innerType: this, ...more }, run); }
  optional() { return this.wrap("optional", (v) => v === undefined ? ok(undefined) : this.run(v)); }
  nullable() { return this.wrap("nullable", (v) => v === null ? ok(null) : this.run(v)); }
  default(d: any) { return this.wrap("default", (v) => v === undefined ? ok(d) : this.run(v)); }
  readonly() { return this.wrap("readonly", (v) => this.run(v)); }
  catch(d: any) { return this.wrap("catch", (v) => then(this.run(v), (r: any) => r.success ? r : ok(d))); }
  refine(f: (v: any) => any, m?: any) {
    const def = { ...this._def, checks: [...(this._def.checks ?? []), { type: "custom", _zod: { def: { check: "custom" } } }] };
    return new Schema(def, (v) => then(this.run(v), (r: any) => r.success ? then(f(r.data), (x: any) => x ? r : bad(msg(m, "Invalid input"))) : r));
  }
  transform(f: (v: any) => any) { return new Schema({ type: "pipe", in: this, out: undefined }, (v) => then(this.run(v), (r: any) => r.success ? then(f(r.data), ok) : r)); }
  pipe(s: Schema) { return new Schema({ type: "pipe", in: this, out: s }, (v) => then(this.run(v), (r: any) => r.success ? s.run(r.data) : r)); }
  min(n: number, m?: any) {
    return new Schema({ ...this._def, checks: [...(this._def.checks ?? []), { kind: "min" }] }, (v) => then(this.run(v), (r: any) => !r.success || (typeof r.data === "number" ? r.data : r.data.length) >= n ? r : bad(msg(m, "Too small"))));
  }
  int(m?: any) { return new Schema({ ...this._def, checks: [...(this._def.checks ?? []), { kind: "int", format: "safeint" }] }, (v) => then(this.run(v), (r: any) => !r.success || Number.isSafeInteger(r.data) ? r : bad(msg(m, "Invalid int")))); }
}
const then = (x: any, f: (v: any) => any) => x instanceof Promise ? x.then(f) : f(x);
const typed = (type: string, m: any) => new Schema({ type }, (v) => typeof v === type && (type !== "number" || Number.isFinite(v)) ? ok(v) : bad(msg(m, "Invalid input")));
export const z: any = {
  string: (m?: any) => typed("string", m),
  boolean: (m?: any) => typed("boolean", m),
  number: (m?: any) => typed("number", m),
  coerce: {
    boolean: (_m?: any) => new Schema({ type: "boolean", coerce: true }, (v) => ok(Boolean(v))),
    number: (m?: any) => new Schema({ type: "number", coerce: true }, (v) => { const n = Number(v); return Number.isFinite(n) ? ok(n) : bad(msg(m, "Invalid input")); }),
  },
  enum: (values: any, m?: any) => { const nums: any[] = Array.isArray(values) ? [] : Object.values(values).filter((v) => typeof v === "number"); const l: any[] = Array.isArray(values) ? values : Object.entries(values).filter(([k]) => !nums.includes(+k)).map(([, v]) => v); return new Schema({ type: "enum", entries: Array.isArray(values) ? Object.fromEntries(l.map((v, i) => ["k" + i, v])) : values }, (v) => l.includes(v) ? ok(v) : bad(msg(m, "Invalid option"))); },
  literal: (value: any, m?: any) => { const l = Array.isArray(value) ? value : [value]; return new Schema({ type: "literal", values: l }, (v) => l.includes(v) ? ok(v) : bad(msg(m, "Invalid input"))); },
  union: (options: Schema[], m?: any) => new Schema({ type: "union", options }, (v) => {
    const go = (i: number): any => i === options.length ? bad(msg(m, "Invalid input")) : then(options[i].run(v), (r: any) => r.success ? r : go(i + 1));
    return go(0);
  }),
  lazy: (getter: () => Schema) => new Schema({ type: "lazy", getter }, (v) => getter().run(v)),
  preprocess: (f: (v: any) => any, s: Schema) => new Schema({ type: "pipe", in: new Schema({ type: "transform" }, (v) => ok(f(v))), out: s }, (v) => then(f(v), (x: any) => s.run(x))),
  any: () => new Schema({ type: "any" }, ok),
};
export default z;
