import { parseTwice } from "../_lib/again.ts";
import { color } from "@optique/core/valueparser";
import { allDigits, isHex } from "../_lib/tmpl.ts";

// `~` digit, `^` hexadecimal digit, `&` printable character, `_` blank or nothing else
const T: Record<string, string[]> = {
  hex: ["#^^^", "#^^^^", "#^^^^^^", "#^^^^^^^^", "#&&&", "#&&^^^&", "&^^^", "#^^", "#^^^^^", "#^^^^^^^", "#^^^^^^^^^", "_#^^^_", "# ^^^"],
  rgb: ["rgb(~,~,~)", "rgb(~~~,0,0)", "rgb(0,~~~,~~~)", "RGB(1,2,&)", "rgb(1&2,3,4)", "rgba(0,0,0,~)", "rgba(0,0,0,~.~~)", "rgb(0,0,0,.~~)", "rgb(1,2,3,&&&)", "rgb(_1,2_,_3_)", "&gb(1,2,3)", "rgb&(1,2,3)", "rgb(1,2)", "rgb(~~~~,0,0)", "rgb(1,2,3,1.~)", "rgb(1,2,3&", "rg&(1,2,3,0.5)", "rgb(1,2,3,0~.~)"],
  hsl: ["hsl(~,0%,0%)", "hsl(&~0,0%,0%)", "hsl(0,~~~%,0%)", "hsl(0,0%&~~%)", "hsl(0,0%,0&)", "hsla(0,0%,0%,~.~)", "HSL(0,0%,10~%)", "hsl(-.&,0%,0%)", "hs&(0,0%,0%)", "hsl(0,0%,0%,&)", "hsl(~~,100%,0%)", "hsl(12~.~,0%,100%)"],
  named: ["re&", "&ed", "R&d", "transparen&", "rebeccapurpl&", "tostrin&", "constructo&", "__proto_&", "valueOf", "grey&", "&lue&"],
};
const FORMATS: any[] = [undefined, ["hex"], ["rgb"], ["hsl"], ["named"], ["hex", "named"], []];
const NAMED: any = { red: [255, 0, 0, 1], blue: [0, 0, 255, 1], transparent: [0, 0, 0, 0], rebeccapurple: [102, 51, 153, 1], grey: [128, 128, 128, 1], tan: [210, 180, 140, 1] };
function make(sx: any, t: string): string {
  const at: any = {};
  const h: any = { "~": [["0", "9"]], "^": [["0", "9"], ["a", "f"], ["A", "F"]], "&": [[0x20, 0x7e]], "_": [0x20, 9, 10, 0xa0] };
  for (let i = 0; i < t.length; i++) at[i] = h[t[i]] ?? t[i];
  return sx.str("s", { len: t.length, at });
}
/** a non-negative decimal number without exponent: [digits as integer, power of ten], or null */
function num(sx: any, s: string): [any, number] | null {
  const p = s.split(".");
  if (p.length > 2) return null;
  const a = p[0], b = p.length === 2 ? p[1] : "";
  if (a.length + b.length === 0 || (a.length > 0 && !allDigits(sx, a)) || (b.length > 0 && !allDigits(sx, b))) return null;
  return [sx.decimal(a + b), b.length];
}
const atMost = (sx: any, n: [any, number], k: number) => sx.is(n[0] <= BigInt(k) * 10n ** BigInt(n[1]));
function parts(sx: any, s: string, name: string): string[] | null {
  const low = s.toLowerCase();
  let r: string | null = null;
  for (const n of [name, name + "a"]) if (low.length > n.length + 1 && sx.is(sx.eq(low.slice(0, n.length + 1), n + "("))) r = s.slice(n.length + 1);
  if (r === null || !sx.is(sx.eq(r[r.length - 1], ")"))) return null;
  return r.slice(0, -1).split(",").map((q) => q.trim());
}
function want(sx: any, s: string, f: string[]): any[] | null {
  const has = (k: string) => f.includes(k);
  if (has("hex") && [4, 5, 7, 9].includes(s.length) && sx.is(sx.eq(s[0], "#"))) {
    let ok = true;
    for (let i = 1; ok && i < s.length; i++) ok = isHex(sx, s[i]);
    if (ok) {
      const w = s.length > 5 ? 2 : 1, v: any[] = [];
      for (let i = 1; i < s.length; i += w) v.push(parseInt(s.slice(i, i + w), 16) * (w === 1 ? 17 : 1));
      return [v[0], v[1], v[2], v.length > 3 ? ["n", v[3]] : 1];
    }
  }
  const alpha = (q: string): any => {
    const n = num(sx, q);
    return n !== null && atMost(sx, n, 1) ? ["q", n] : null;
  };
  if (has("rgb")) {
    const p = parts(sx, s, "rgb");
    if (p !== null && (p.length === 3 || p.length === 4)) {
      const c = p.slice(0, 3).map((q) => q.length <= 3 && allDigits(sx, q) && sx.is(sx.decimal(q) <= 255n) ? Number(sx.decimal(q)) : null);
      const a = p.length === 4 ? alpha(p[3]) : 1;
      if (c.every((x) => x !== null) && a !== null) return [...c, a];
    }
  }
  if (has("hsl")) {
    const p = parts(sx, s, "hsl");
    if (p !== null && (p.length === 3 || p.length === 4)) {
      const pct = (q: string) => {
        if (q.length < 2 || !sx.is(sx.eq(q[q.length - 1], "%"))) return false;
        const n = num(sx, q.slice(0, -1));
        return n !== null && atMost(sx, n, 100);
      };
      if (num(sx, p[0][0] === "-" ? p[0].slice(1) : p[0]) !== null && pct(p[1]) && pct(p[2]) && (p.length === 3 || alpha(p[3]) !== null)) return ["hsl"];
    }
  }
  if (has("named")) for (const k of Object.keys(NAMED)) if (sx.is(sx.eq(s.toLowerCase(), k))) return NAMED[k];
  return null;
}
export default {
  name: "color",
  bounds: "color() with 7 sets of notations; 54 templates of 3-15 characters with 1-9 symbolic ones (hexadecimal and decimal digits, any printable character, blanks); values of hsl() colours with a non-zero lightness are not decided",
  assumptions: ["6 of the named colours are compared here; names.ts compares them all"],
  covers: ["accepted", "rejected", "alpha", "hsl"],
  concretizeCap: 1100,
  cases(tier: string) {
    const out: any[] = [];
    for (const k of Object.keys(T)) for (const t of T[k]) FORMATS.forEach((f, i) => {
      if (tier !== "quick" || i === 0 || i === 5 || f.includes(k)) out.push([t, i]);
    });
    return out;
  },
  run(sx: any) {
    const [t, fi] = sx.case;
    const s = make(sx, t);
    const f = FORMATS[fi] ?? ["hex", "rgb", "hsl", "named"];
    const vp: any = color(FORMATS[fi] === undefined ? {} : { formats: FORMATS[fi] });
    const r = parseTwice(sx, vp, s);
    sx.observe("ok", r.success);
    const w = want(sx, s.trim(), f);
    sx.cover(w ? "accepted" : "rejected");
    sx.assert(r.success === (w !== null), w ? "a valid colour is rejected" : "a malformed or disallowed colour is accepted");
    if (w === null) return;
    const c = r.value;
    if (w[0] === "hsl") {
      sx.cover("hsl");
      // hue and saturation do not matter for black and white
      if (/,0%\)$/.test(t)) sx.assert(sx.eq([c.r, c.g, c.b], [0, 0, 0]), "black is misread");
      if (/,100%\)$/.test(t)) sx.assert(sx.eq([c.r, c.g, c.b], [255, 255, 255]), "white is misread");
    } else {
      sx.assert(sx.eq([c.r, c.g, c.b], w.slice(0, 3)), "a colour's channels are misread");
      if (Array.isArray(w[3])) {
        sx.cover("alpha");
        // the nearest multiple of 1/255
        const a = w[3];
        if (a[0] === "n") sx.assert(sx.eq(Math.round(c.a * 255), a[1]), "the opacity is misread");
        else {
          const k: any = BigInt(Math.round(c.a * 255)), d = 10n ** BigInt(a[1][1]), x = 510n * a[1][0] - 2n * k * d;
          sx.assert(sx.and(x <= d, x >= -d), "the opacity is misread");
        }
      } else sx.assert(sx.eq(c.a, w[3]), "the opacity is misread");
    }
    if (f.includes("hex") || (f.includes("rgb") && !f.includes("hsl"))) {
      const back = vp.parse(vp.format(c));
      sx.assert(back.success && sx.is(sx.eq(back.value, c)), "a formatted colour does not parse back");
    }
  },
};
