/** parses, and once more: the same text gives the same result from the same parser */
export function parseTwice(sx: any, p: any, s: string): any {
  const r = p.parse(s), q = p.parse(s);
  sx.assert(r.success === q.success && (!r.success || sx.is(sx.eq(r.value, q.value))), "the same text gives another result the second time");
  return r;
}
