export const NOTE = "Every branch of the instrumented real source is explored for symbolic inputs within the bounds stated in the harness; each explored path is re-run concretely on the uninstrumented source and must agree, and each counterexample is replayed there before it is reported. Trusted: the TypeScript-to-instrumented-JavaScript rewriting, the string/regex encoding, z3. Outside the stated bounds nothing is claimed.";
export default [
  {
    id: "C01", title: "A flat command line means exactly what the documented conventions say",
    statement: "For any set of options, flags and positional arguments and any sequence of tokens, parsing succeeds exactly when the tokens are a well-formed use of the declared names under the documented conventions (separate or joined values, short-flag bundles, the `--` terminator, repetition limits, required and defaulted fields), and then every field holds exactly the value those tokens give it. No token is dropped, used twice or credited to another field.",
    over: ["inputs", "configurations"],
    all: "every command line of up to 3 (thorough: 4) tokens of up to 3-6 printable characters over the listed grammars",
    why: "The tests list particular token sequences; the interaction of bundling, joined values, terminators, repetition and positionals has a combinatorial input space in which a misread token silently becomes a wrong value.",
    files: ["packages/core/src/primitives.ts", "packages/core/src/constructs.ts", "packages/core/src/modifiers.ts", "packages/core/src/internal/parser.ts"],
    mech: [["option/flag/argument parse steps", "packages/core/src/primitives.ts"], ["object() field loop with priority order", "packages/core/src/constructs.ts"], ["parse() driver loop until no progress", "packages/core/src/internal/parser.ts"]],
    observe: ["the result of parse()"],
    note: NOTE,
  },
  {
    id: "C03", title: "Exclusive choices return one alternative's own result, and lose nothing",
    statement: "An exclusive choice (first-match, or longest-match) over alternatives accepts a command line only if some alternative on its own accepts that whole command line, and its result is then that alternative's own result, with no token consumed by an abandoned alternative being lost. When the alternatives do not share vocabulary, a command line one alternative accepts is accepted by the choice.",
    over: ["inputs", "configurations"],
    all: "every command line of up to 3 (thorough: 4) tokens of up to 3 characters over nine sets of alternatives",
    why: "Tests try chosen pairs of alternatives and inputs; wrong results come from particular interleavings of tokens that belong to different alternatives.",
    files: ["packages/core/src/constructs.ts", "packages/core/src/internal/parser.ts"],
    mech: [["or() and longestMatch() branch selection and completion", "packages/core/src/constructs.ts"]],
    observe: ["the result of parse()"],
    note: NOTE,
  },
  {
    id: "C02", title: "Equivalent spellings and orders of the same intent give the same result",
    statement: "A correct command line keeps its meaning when an option's value is joined instead of separate, another of its names is used, short flags are bundled or separated, items that belong to different fields are reordered, or `--` is put before the trailing positional values. This holds whichever combinators the grammar is composed with.",
    over: ["inputs", "configurations"],
    all: "1-4 intended items with values of 0-3 arbitrary printable characters, in all spellings, over eleven compositions of the same six fields",
    why: "Each equivalence is tested on a few literal command lines; the product of spellings, orders, compositions and value contents is not.",
    files: ["packages/core/src/primitives.ts", "packages/core/src/constructs.ts", "packages/core/src/modifiers.ts"],
    mech: [["option name matching and value splitting", "packages/core/src/primitives.ts"], ["priority-ordered field loops", "packages/core/src/constructs.ts"]],
    observe: ["the result of parse()"],
    note: NOTE,
  },
  {
    id: "C04", title: "A command line reaches exactly the command it names",
    statement: "In a tree of subcommands, a command line is handled by the command whose name or alias it gives, exactly and case-sensitively, at each level, with the remaining tokens read by that command's own grammar and by the options declared around it. Any other first word, and any token the chosen command does not understand, is rejected rather than given to another command.",
    over: ["inputs", "configurations"],
    all: "every command line of up to 4 tokens of 1-3 printable characters over six command trees",
    why: "Tests dispatch listed names; prefixes, case variants, aliases shared between levels and option/command interleavings are not covered systematically.",
    files: ["packages/core/src/primitives.ts", "packages/core/src/constructs.ts"],
    mech: [["command() name matching and delegation", "packages/core/src/primitives.ts"], ["or()/longestMatch() branch locking", "packages/core/src/constructs.ts"]],
    observe: ["the result of parse()"],
    note: NOTE,
  },
  {
    id: "C05", title: "Composition is algebraic: equivalent grammars parse alike",
    statement: "Merging or nesting objects, concatenating tuples, labelling or grouping, mapping a result, adding constants, reassociating or reordering independent members, and using the method-chaining form never change which command lines are accepted, and change the value only by the corresponding rearrangement.",
    over: ["inputs", "programs"],
    all: "23 laws between pairs of grammars, on every command line of up to 3 tokens of up to 3 printable characters",
    why: "The laws relate pairs of grammars on all inputs; tests check single grammars on chosen inputs.",
    files: ["packages/core/src/constructs.ts", "packages/core/src/modifiers.ts", "packages/core/src/fluent.ts"],
    mech: [["object/tuple/merge/concat/group/seq parse and complete", "packages/core/src/constructs.ts"], ["map and fluent wrappers", "packages/core/src/modifiers.ts"]],
    observe: ["the results of parse() of both grammars"],
    note: NOTE,
  },
  {
    id: "C06", title: "Optional, default, deferred and mapping wrappers affect only absence",
    statement: "A wrapper that makes a parser optional, gives it a default or defers it returns the parser's own value whenever that parser accepts what was given, supplies the fallback (computed only then) when nothing was given, and still rejects whatever the parser rejects: an error in something the user did type is never hidden by a fallback. A mapping applies its function to exactly that value, and a non-emptiness requirement rejects only absence.",
    over: ["inputs", "configurations"],
    all: "14 parsers under ten wrappings, on every command line of up to 3 tokens of up to 3 printable characters",
    why: "Tests check presence and absence with chosen values; a swallowed error appears only for particular partial or malformed inputs.",
    files: ["packages/core/src/modifiers.ts", "packages/core/src/constructs.ts"],
    mech: [["optional-style parse and completion", "packages/core/src/modifiers.ts"], ["nonEmpty(), deferredValue(), map()", "packages/core/src/modifiers.ts"]],
    observe: ["the result of parse()"],
    note: NOTE,
  },
  {
    id: "C07", title: "Parsing is total, repeatable and leaves its inputs alone",
    statement: "For every grammar and every list of strings, parsing, suggesting and building help return a result and never throw; a rejected command line comes with a non-empty message. The argument list is not modified, and a parser used for other command lines in between gives the same verdict, value and error again.",
    over: ["inputs", "histories"],
    all: "15 grammars over all combinators, command lines of up to 3 tokens of up to 2 characters including controls and lone surrogates, with an intervening use of the same parser",
    why: "Exceptions and leaked state appear for token shapes and histories no test lists.",
    files: ["packages/core/src/internal/parser.ts", "packages/core/src/constructs.ts", "packages/core/src/primitives.ts", "packages/core/src/modifiers.ts"],
    mech: [["parse(), suggest(), getDocPage() drivers", "packages/core/src/internal/parser.ts"], ["immutable parser states", "packages/core/src/constructs.ts"]],
    observe: ["results and exceptions of parse(), suggest(), getDocPage()"],
    note: NOTE,
  },
  {
    id: "C08", title: "Asynchronous value parsers change timing, not results",
    statement: "Replacing the value parsers of a grammar by asynchronous ones that produce the same results, in whatever order their promises settle, gives the same verdict, the same value and the same error message for every command line. The completions offered and the help page are the same too.",
    over: ["inputs", "schedules"],
    all: "29 grammars over all combinators, command lines of up to 3 tokens of up to 3 printable characters (of up to 6 tokens over the grammar's words for grammars whose parts take several tokens), each asynchronous call immediate or delayed; completions and help pages after up to 1 (thorough: 3) words",
    why: "Every combinator has separate synchronous and asynchronous code; tests compare them on few inputs and only with immediately settling promises.",
    files: ["packages/core/src/constructs.ts", "packages/core/src/modifiers.ts", "packages/core/src/primitives.ts", "packages/core/src/internal/mode-dispatch.ts", "packages/core/src/internal/parser.ts"],
    mech: [["paired parseSync/parseAsync and complete implementations", "packages/core/src/constructs.ts"], ["mode dispatch", "packages/core/src/internal/mode-dispatch.ts"]],
    observe: ["the results of parse() and parseAsync()"],
    note: NOTE + " Promise settlement is modelled by up to three calls that settle at once or two microtasks later.",
  },
  {
    id: "C09", title: "Pass-through collects exactly the unrecognized options, in order",
    statement: "A pass-through parser receives exactly the options the rest of the grammar does not declare, verbatim and in the order typed, under its format: only --name=value tokens, an option with its following value, or everything from the first unrecognized token. Declared options, positional arguments and everything after `--` keep their ordinary meaning (except in the greedy format), and nothing typed is lost or invented.",
    over: ["inputs", "configurations"],
    all: "every command line of up to 3 (thorough: 4) tokens of up to 6 printable characters over five shapes and three formats",
    why: "Forwarding the wrong token, or swallowing one, hands a different command line to the wrapped tool; tests try a few literal command lines.",
    files: ["packages/core/src/primitives.ts", "packages/core/src/constructs.ts"],
    mech: [["passThrough() capture formats", "packages/core/src/primitives.ts"], ["priority-ordered field loop", "packages/core/src/constructs.ts"]],
    observe: ["the result of parse()"],
    note: NOTE,
  },
  {
    id: "C11", title: "A conditional grammar uses exactly the branch its discriminator names",
    statement: "conditional() parses the tokens with the branch whose key the discriminator's value is, or with the default branch if the discriminator is absent, and returns that value with that branch's own result. A command line whose discriminator comes first is accepted exactly if that branch accepts the rest; no other branch's options are accepted or influence the result.",
    over: ["inputs", "configurations"],
    all: "8 grammars with 2-3 branches, with and without a default branch and a defaulted discriminator, alone and inside an object; command lines of up to 4 (thorough: 5) tokens of symbolic text",
    why: "Which branch is chosen depends on values and order of tokens; tests show a few combinations of branch and options.",
    files: ["packages/core/src/constructs.ts", "packages/core/src/primitives.ts"],
    mech: [["conditional(): discriminator first, then its branch", "packages/core/src/constructs.ts"]],
    observe: ["the verdict and value of parse()"],
    note: NOTE,
  },
  {
    id: "C12", title: "A sequence gives each parser its own part of the tokens, in order",
    statement: "seq() accepts a command line only if the tokens can be divided, in declaration order, into one part per parser which that parser accepts on its own, and returns the tuple of those results. Each parser goes on until it cannot, or until `--` or a name that opens a later parser when it may end there; a division that respects this is always accepted.",
    over: ["inputs", "configurations"],
    all: "8 sequences of 2-3 parsers of all kinds; command lines of up to 3 (thorough: 4) tokens of symbolic text",
    why: "Where one parser's part ends depends on the texts of all tokens and on `--`; tests use fixed lines.",
    files: ["packages/core/src/constructs.ts", "packages/core/src/primitives.ts", "packages/core/src/modifiers.ts"],
    mech: [["the cursor of seq()", "packages/core/src/constructs.ts"]],
    observe: ["the verdict and value of parse()"],
    note: NOTE,
  },
];
