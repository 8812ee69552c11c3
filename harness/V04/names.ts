import { color } from "@optique/core/valueparser";
import { mix } from "../_lib/mix.ts";

// the named colours of CSS Color Level 4, besides "transparent"
const TABLE = `
aliceblue f0f8ff,antiquewhite faebd7,aqua 00ffff,aquamarine 7fffd4,azure f0ffff,beige f5f5dc,bisque ffe4c4,
black 000000,blanchedalmond ffebcd,blue 0000ff,blueviolet 8a2be2,brown a52a2a,burlywood deb887,
cadetblue 5f9ea0,chartreuse 7fff00,chocolate d2691e,coral ff7f50,cornflowerblue 6495ed,cornsilk fff8dc,
crimson dc143c,cyan 00ffff,darkblue 00008b,darkcyan 008b8b,darkgoldenrod b8860b,darkgray a9a9a9,
darkgreen 006400,darkgrey a9a9a9,darkkhaki bdb76b,darkmagenta 8b008b,darkolivegreen 556b2f,darkorange ff8c00,
darkorchid 9932cc,darkred 8b0000,darksalmon e9967a,darkseagreen 8fbc8f,darkslateblue 483d8b,
darkslategray 2f4f4f,darkslategrey 2f4f4f,darkturquoise 00ced1,darkviolet 9400d3,deeppink ff1493,
deepskyblue 00bfff,dimgray 696969,dimgrey 696969,dodgerblue 1e90ff,firebrick b22222,floralwhite fffaf0,
forestgreen 228b22,fuchsia ff00ff,gainsboro dcdcdc,ghostwhite f8f8ff,gold ffd700,goldenrod daa520,gray 808080,
green 008000,greenyellow adff2f,grey 808080,honeydew f0fff0,hotpink ff69b4,indianred cd5c5c,indigo 4b0082,
ivory fffff0,khaki f0e68c,lavender e6e6fa,lavenderblush fff0f5,lawngreen 7cfc00,lemonchiffon fffacd,
lightblue add8e6,lightcoral f08080,lightcyan e0ffff,lightgoldenrodyellow fafad2,lightgray d3d3d3,
lightgreen 90ee90,lightgrey d3d3d3,lightpink ffb6c1,lightsalmon ffa07a,lightseagreen 20b2aa,
lightskyblue 87cefa,lightslategray 778899,lightslategrey 778899,lightsteelblue b0c4de,lightyellow ffffe0,
lime 00ff00,limegreen 32cd32,linen faf0e6,magenta ff00ff,maroon 800000,mediumaquamarine 66cdaa,
mediumblue 0000cd,mediumorchid ba55d3,mediumpurple 9370db,mediumseagreen 3cb371,mediumslateblue 7b68ee,
mediumspringgreen 00fa9a,mediumturquoise 48d1cc,mediumvioletred c71585,midnightblue 191970,mintcream f5fffa,
mistyrose ffe4e1,moccasin ffe4b5,navajowhite ffdead,navy 000080,oldlace fdf5e6,olive 808000,olivedrab 6b8e23,
orange ffa500,orangered ff4500,orchid da70d6,palegoldenrod eee8aa,palegreen 98fb98,paleturquoise afeeee,
palevioletred db7093,papayawhip ffefd5,peachpuff ffdab9,peru cd853f,pink ffc0cb,plum dda0dd,powderblue b0e0e6,
purple 800080,rebeccapurple 663399,red ff0000,rosybrown bc8f8f,royalblue 4169e1,saddlebrown 8b4513,
salmon fa8072,sandybrown f4a460,seagreen 2e8b57,seashell fff5ee,sienna a0522d,silver c0c0c0,skyblue 87ceeb,
slateblue 6a5acd,slategray 708090,slategrey 708090,snow fffafa,springgreen 00ff7f,steelblue 4682b4,tan d2b48c,
teal 008080,thistle d8bfd8,tomato ff6347,turquoise 40e0d0,violet ee82ee,wheat f5deb3,white ffffff,
whitesmoke f5f5f5,yellow ffff00,yellowgreen 9acd32`;
const NAMED: Record<string, any[]> = { transparent: [0, 0, 0, 0] };
for (const e of TABLE.trim().split(/[,\n]+/)) {
  const [n, h] = e.trim().split(" ");
  NAMED[n] = [0, 2, 4].map((i) => parseInt(h.slice(i, i + 2), 16)).concat(1);
}
const NAMES = Object.keys(NAMED);
const hash = (t: string) => [...t].reduce((h, c) => (h * 31 + c.charCodeAt(0)) % 65521, 7);
const arr = (c: any) => [c.r, c.g, c.b, c.a];
export default {
  name: "names",
  bounds: "all 149 named colours, each with one letter replaced by any printable character and the other letters in lower case or alternating; format() and normalize() of the colours under the notation of names, suggestions for prefixes of 0-3 characters",
  assumptions: [],
  concretizeCap: 1100,
  covers: ["named", "not named", "suggestions", "opacity"],
  cases(tier: string) {
    const out: any[] = [];
    for (const n of NAMES) for (let i = 0; i < n.length; i++) if (tier !== "quick" || i === mix(hash(n)) % n.length) out.push([n, i]);
    for (const w of ["", "?", "l?", "?a", "dar?", "?ed"]) out.push(["suggest", w]);
    for (let k = 0; k <= 8; k++) out.push(["opacity", k]);
    return out;
  },
  run(sx: any) {
    const [n, i] = sx.case;
    const vp: any = color({ formats: ["named"] });
    if (n === "suggest") {
      sx.cover("suggestions");
      const at: any = {};
      for (let j = 0; j < i.length; j++) at[j] = i[j] === "?" ? [["a", "z"], ["A", "Z"]] : i[j];
      const p = i.length === 0 ? "" : sx.str("p", { len: i.length, at });
      const got = [...vp.suggest(p)].map((s: any) => s.text).sort();
      const want = NAMES.filter((x) => x.length >= p.length && sx.is(sx.eq(x.slice(0, p.length), p.toLowerCase()))).sort();
      sx.assert(sx.eq(got, want), "the named colours offered are not those with the typed prefix");
      return;
    }
    if (n === "opacity") {
      sx.cover("opacity");
      // the opacities a run can have are the multiples of 1/255
      const k = sx.int("k", 0, 31), a = (i * 32 + Number(k)) / 256;
      if (!sx.is(a <= 1)) return;
      const all: any = color();
      const c = all.normalize({ r: 1, g: 2, b: 3, a });
      const back = all.parse(all.format({ r: 1, g: 2, b: 3, a }));
      sx.assert(back.success && sx.is(sx.eq(arr(back.value), arr(c))), "a normalized colour is not the one its formatted text gives");
      sx.assert(sx.eq(arr(c).slice(0, 3), [1, 2, 3]), "normalizing an opacity changes the colour");
      return;
    }
    const at: any = {};
    for (let j = 0; j < n.length; j++) at[j] = j === i ? [[0x21, 0x7e]] : mix(hash(n)) % 2 && j % 2 ? n[j].toUpperCase() : n[j];
    const s = sx.str("s", { len: n.length, at });
    const hit = NAMES.find((x) => x.length === n.length && x.slice(0, i) === n.slice(0, i) && x.slice(i + 1) === n.slice(i + 1) && sx.is(sx.eq(s[i].toLowerCase(), x[i])));
    sx.cover(hit ? "named" : "not named");
    for (const q of [vp, color() as any]) {
      const r = q.parse(s);
      sx.assert(r.success === (hit !== undefined), hit ? "a named colour is rejected" : "a name that is no colour's is accepted");
      if (hit === undefined) continue;
      sx.assert(sx.eq(arr(r.value), NAMED[hit]), "a named colour has another value");
      const back = q.parse(q.format(r.value));
      sx.assert(back.success && sx.is(sx.eq(arr(back.value), NAMED[hit])), "a formatted colour does not parse back");
      sx.assert(sx.eq(arr(q.normalize(r.value)), NAMED[hit]), "normalizing changes a colour that was parsed");
    }
  },
};
