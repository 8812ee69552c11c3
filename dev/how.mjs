export default {
C01: "Oracle: a reference reader of command lines (`_lib/ref.ts`), written from docs/concepts, which from the declared fields and the same symbolic tokens computes verdict and field values; asserted equal on every path. Tests cannot enumerate all token texts; here each token is free text, so names, `=`, dashes and terminators appear by themselves.",
C02: "Metamorphic: a symbolic intent (which items, which values) is spelt in two ways by symbolic spelling choices; both must parse to the value the intent denotes.",
C03: "Oracle: the verdict and value of the real parser on each alternative alone, for the same symbolic command line.",
C04: "Oracle: a reference dispatcher over the command tree (exact names and aliases) followed by the reference reader for the chosen command's grammar.",
C05: "Relational: two equivalent grammars are run on the same symbolic command line; verdicts equal, values equal after the stated rearrangement.",
C06: "Relational: the wrapped parser against the bare parser on the same symbolic command line; absence is defined as the bare parser's vocabulary not occurring. Fallback functions count their calls.",
C07: "Assertion: no exception leaves parse, suggest or doc building; a failure has a non-empty message; the arguments are unchanged; parsing again after parsing something else gives the same.",
C08: "Relational: every value parser made asynchronous, settling after a symbolically chosen number of microtask turns (a real schedule in the plain replay), against the synchronous grammar: verdict, value and error equal.",
C09: "Oracle: a reference scan of the tokens which sorts declared names, pass-through tokens and positionals per format; otherwise conservation of tokens.",
C10: "Oracle: the dependent value parser built directly (factory called with the source values the command line gives, or the defaults) applied to the same text; for completion its own suggest().",
C11: "Oracle: the reference reader applied to the discriminator plus the chosen branch's fields; the branch is taken from the discriminator's symbolic value.",
C12: "Oracle: all divisions of the tokens among the parts; each part's verdict is that of the real parser on its own part (memoised on the same symbolic tokens).",
S01: "Each suggestion of the real suggestSync() for a symbolic valid beginning and prefix is appended and checked to be acceptable, with at most one further word searched from the grammar's witnesses.",
S02: "Conversely every declared name or choice starting with the symbolic prefix whose use the real parser accepts next must be among the suggestions.",
F01: "runParser() on symbolic command lines with recording callbacks and streams; the oracle is the verdict of parse() on the same command line plus the set of built-in names.",
F02: "The runners of `@optique/run` against a modelled process: streams, exit and handlers are recorded and compared with what parse() and the settings demand.",
I01: "Oracle: the precedence model of `_lib/sources.ts` over symbolic presence and values of every source, evaluated for the same nesting.",
N01: "Oracle: a roff reader (`_lib/roff.ts`, compared with groff by hand) run over the symbolic output; the items it finds must be the given texts in their places.",
V01: "Oracle: the notation read character by character over exact rationals (LIA); bounds symbolic.",
V02: "Oracle: membership in the declared list by exact (or case-folded) comparison; canonical number texts from a reference printer.",
V03: "Oracle: reference validators and canonicalisers written from RFC 4291/5952/1123/5321 over the symbolic text.",
V04: "Oracle: reference readers of each notation over the symbolic text.",
V05: "Oracle: the stated demands over the modelled file system's symbolic answers.",
I02: "Oracle: a reader of the documented .env notation (`_lib/dotenv.ts`), run over the same symbolic text.",
I03: "Oracle: the stated outcome for each symbolic combination of loading outcome, wrapper and value; the constraint is decided by the same parser reading the value as text.",
F03: "Monitor: the recorded sequence of calls is compared with the stated one for every symbolic combination of contexts, phases and faults.",
V06: "Oracle: the parts' own results combined as stated, a JSON reader over the symbolic text, and equality after format() and parse().",
M01: "Oracle: the given texts laid out by a reference (exact without a width; with one, the same non-blank characters in order, breaks only where stated, widths counted); colours are stripped by a reader that knows the escape sequences.",
D01: "Oracle: the union of the hidden settings as sets of places; for pages, a reference reader that finds the command the symbolic words reach and its list of entries.",
S03: "Oracle: the edit distance by its recursive definition over the symbolic strings, the documented thresholds, and the list of visible names per position.",
X01: "Oracle: the documented rule for file names, written out for symbolic names; a reader of the generated module's imports and options that resolves specifiers as ECMAScript does; and the deepest command path that the leading words spell, with that command's own grammar run on the rest. The file system and node:url are stand-ins; node:path is a model during exploration and the real module in replays.",
X02: "Oracle: the documented nesting as a list of steps computed from which hooks exist and where the first fault is; identity of contexts, results and errors; and the grammar of the deepest command named. node:process is a recording stand-in and message formatting is cut out.",
S04: "Oracle: readers of each shell's records and quotes, written from the scripts' own splitting and decoding, applied to the symbolic output; the parser's own suggestions for the same words; and for the built-in options a second run with the option in place of the word completed. The scripts' shell code itself is not TypeScript and is not executed: it was only tried by hand in Bash, zsh and fish.",
P01: "Oracle: the parser without prompts, given the prompted answers and sourced values as if typed, and the stated rule for which prompts run, for every symbolic combination of places, sources and outcomes. The prompt libraries are stand-ins (they ask again until the validator they were handed is content).",
E01: "Oracle: the schema's own verdict. Exploration uses stand-ins for zod and valibot with the same introspection surface (`_lib/model_zod.ts`, `_lib/model_valibot.ts`); each explored path is then replayed against the real library and must agree, so that the models cannot drift from what they stand for. Refined enumerations, whose refused words are still offered, are left out.",
L01: "Oracle: the number of flags counted in the symbolic tokens and the ordered list of levels; the line a record should give, built from its symbolic parts; @logtape/file is a recording stand-in.",
T01: "Oracle: the notations written as lists of shapes (digits, separators, calendars) which the symbolic text is compared with; Temporal's own verdict is a symbolic flag, so the check holds for every Temporal.",
G01: "Oracle: membership in the symbolic lists of names, the objects an abbreviation fits, and the shortest abbreviations that stay apart. isomorphic-git, the logger and node:process are stand-ins.",
};
