import { parse, suggest, getDocPage } from "@optique/core/parser";
import { formatMessage } from "@optique/core/message";
import { formatDocPage } from "@optique/core/doc";
import { GRAMMARS } from "../_lib/grammars.ts";
import { lengths } from "../_lib/ref.ts";
const ODD = [[0x01, 0x08], [0x20, 0x7e], [0xd7ff, 0xd7ff], [0xd800, 0xd800], [0xfffd, 0xfffd]];
export default {
  name: "total",
  bounds: "15 grammars over all combinators; command lines of 0-3 tokens of 0-2 characters (printable ASCII, controls, lone surrogates, U+FFFD); the same parser is used for two different symbolic command lines and then again for the first",
  assumptions: [],
  covers: ["accepted", "rejected"],
  cases(tier: string) {
    const out: any[] = [];
    for (const g of Object.keys(GRAMMARS)) {
      for (let k = 0; k <= 2; k++) for (const l of lengths(k, 0, 2)) out.push([g, l]);
      for (const l of tier === "quick" ? [[1, 1, 2], [2, 1, 2], [2, 2, 1]] : lengths(3, 1, 2)) out.push([g, l]);
      if (tier !== "quick") for (const l of [...lengths(2, 1, 3), ...lengths(4, 2, 2)]) out.push([g, l]);
    }
    return out;
  },
  run(sx: any) {
    const [g, lens] = sx.case;
    const p = GRAMMARS[g]((x) => x);
    const args: string[] = lens.map((n: number, i: number) => sx.str("t" + i, { len: n, chars: ODD }));
    const other: string[] = args.length ? [...args.slice(1), "-v", "a"] : ["-a", "1"];
    const copy = [...args];
    const r1 = parse(p, args) as any;
    sx.assert(args.length === copy.length && copy.every((t, i) => args[i] === t), "parsing changes the argument list");
    sx.assert(typeof r1.success === "boolean", "no result");
    const snapshot = r1.success ? r1.value : r1.error;
    sx.assert(r1.success || snapshot.length > 0, "a failure without a message");
    sx.cover(r1.success ? "accepted" : "rejected");
    parse(p, other);
    suggest(p, (args.length ? args : [""]) as any);
    const d = getDocPage(p, args);
    if (d) formatDocPage("prog", d);
    const r2 = parse(p, args) as any;
    sx.observe("r", r1.success ? [true, r1.value] : false);
    sx.assert(r2.success === r1.success, "parsing the same arguments again gives another verdict");
    if (r1.success) sx.assert(sx.eq(r2.value, r1.value), "parsing the same arguments again gives another value");
    else sx.assert(sx.eq(r2.error, snapshot), "parsing the same arguments again gives another error");
  },
};
