import { NOTE } from "./core.mjs";
export default [
  {
    id: "C10", title: "Dependent options are read and completed with the actual source values",
    statement: "An option whose value parser depends on other options is parsed with the values those options really have on the command line, in whatever order they were typed, and with their defaults when they were not given. Completion of such an option offers what the value parser built for the same source values offers.",
    over: ["inputs", "configurations", "schedules"],
    all: "grammars with one or two sources in every combinator, sources given before or after the dependent option, or absent; symbolic texts of up to 2-3 characters; synchronous and asynchronous parsers",
    why: "The dependency bookkeeping is spread over every combinator's parse, complete and suggest; a stale or default source value shows only for particular orders and nestings.",
    files: ["packages/core/src/dependency-runtime.ts", "packages/core/src/internal/dependency.ts", "packages/core/src/constructs.ts", "packages/core/src/primitives.ts"],
    mech: [["deferred parsing and source registry", "packages/core/src/dependency-runtime.ts"], ["source collection in combinators", "packages/core/src/constructs.ts"]],
    observe: ["the results of parse(), parseAsync(), suggestSync() and suggestAsync()"],
    note: NOTE,
  },
  {
    id: "S01", title: "Every completion offered leads to a valid command line",
    statement: "Every literal completion offered for a valid beginning of a command line starts with the prefix typed, is offered once, is not hidden, and can be continued to a command line the parser accepts. Offering again an option that was already given is the only exception.",
    over: ["inputs", "configurations"],
    all: "15 grammars over all combinators, every valid beginning of up to 2 (thorough: 3) words and every prefix of up to 3 (5) characters",
    why: "Completion code is separate from parsing code in every combinator; tests check listed suggestions for listed beginnings and cannot relate the two for every input.",
    files: ["packages/core/src/primitives.ts", "packages/core/src/constructs.ts", "packages/core/src/modifiers.ts", "packages/core/src/internal/parser.ts"],
    mech: [["suggest() of every primitive", "packages/core/src/primitives.ts"], ["suggest() of every combinator", "packages/core/src/constructs.ts"], ["driver", "packages/core/src/internal/parser.ts"]],
    observe: ["the suggestions of suggestSync() and the verdict of parse()"],
    note: NOTE,
  },
  {
    id: "S02", title: "Every valid next word is offered as a completion",
    statement: "For a valid beginning of a command line, every option name, command name and choice value that starts with the prefix typed and can come next in an accepted command line is offered as a completion, except hidden ones and values given before. Option names need a prefix that starts like an option.",
    over: ["inputs", "configurations"],
    all: "15 grammars over all combinators, every valid beginning of up to 2 (thorough: 3) words and every prefix of up to 3 (5) characters",
    why: "A missing completion is invisible to tests that list what should be offered for a few beginnings.",
    files: ["packages/core/src/primitives.ts", "packages/core/src/constructs.ts", "packages/core/src/modifiers.ts", "packages/core/src/internal/parser.ts"],
    mech: [["suggest() of every primitive", "packages/core/src/primitives.ts"], ["suggest() of every combinator", "packages/core/src/constructs.ts"], ["value parsers' suggest()", "packages/core/src/valueparser.ts"]],
    observe: ["the suggestions of suggestSync() and the verdict of parse()"],
    note: NOTE,
  },
  {
    id: "F01", title: "Help, version and completion never shadow a valid command line",
    statement: "A command line the program's grammar accepts is never intercepted by the built-in help, version or completion options and commands, and running it prints nothing. Otherwise exactly one of help, version, completion or error happens, only when asked for, on the right stream and with exit code 0 or 1; a help or version option at the end of a valid command line, and a help or version command standing alone, is honoured.",
    over: ["inputs", "configurations"],
    all: "6 grammars, some declaring the built-in names themselves, 5 settings of the built-in names, command lines of up to 3 (thorough: 4) tokens of up to 3 (4) characters; synchronous and asynchronous",
    why: "Tests try the built-in names in a few positions; interception of data and fall-through depend on the whole command line.",
    files: ["packages/core/src/facade.ts"],
    mech: [["runParser(): parse first, then built-in requests", "packages/core/src/facade.ts"], ["classification of help, version and completion requests", "packages/core/src/facade.ts"]],
    observe: ["the callbacks called, the streams written and the value returned by runParser() and runParserAsync()"],
    note: NOTE + " Rendering of pages and messages is cut out.",
  },
  {
    id: "F02", title: "A run ends with the documented exit code, streams and handlers",
    statement: "run(), runSync() and runAsync() return the parsed value and touch nothing for a command line the grammar accepts. For a help, version or completion request they write to standard output and leave through the configured handler or exit with 0; for an error they write to standard error and leave through the error handler or exit with the configured code; each happens once, and nothing else happens after it.",
    over: ["inputs", "configurations"],
    all: "command lines of up to 3 tokens of symbolic text over grammars with and without the built-ins, every combination of the runner's handlers, exit codes and aliases explored; the three runners",
    why: "Which of exit, callback and stream is used depends on the combination of settings and on the command line; tests fix both.",
    files: ["packages/run/src/run.ts", "packages/core/src/facade.ts"],
    mech: [["runner settings and exits", "packages/run/src/run.ts"], ["dispatch of requests and errors", "packages/core/src/facade.ts"]],
    observe: ["process.exit, stdout and stderr of a modelled process, and the value returned"],
    note: NOTE + " process is a model that records; rendering of pages and messages is cut out.",
  },
  {
    id: "I01", title: "Command line, environment, configuration and default values rank as stated",
    statement: "A bound field takes the command line's value; failing that the first source that has one, from the outermost binding inwards (environment, configuration, derived default), and failing those that binding's default. The value must satisfy the field's own constraints, another field is never disturbed, and without any value the run fails with exit code 1 or, under optional() and withDefault(), gives undefined or the default.",
    over: ["inputs", "configurations", "fault_sequences"],
    all: "7 nestings of one to three sources around an option or an argument in 21 places of a grammar; every combination of sources set and unset, with and without defaults, valid and invalid; symbolic text and integer values; synchronous and asynchronous parsers and runners",
    why: "Every combinator has to hand the sources' annotations on to every child and every runner has to run two passes; tests try a few nestings, each with values that are all valid.",
    files: ["packages/env/src/index.ts", "packages/config/src/index.ts", "packages/derived-defaults/src/index.ts", "packages/core/src/facade.ts", "packages/core/src/modifiers.ts", "packages/core/src/constructs.ts", "packages/core/src/annotation-state.ts"],
    mech: [["bindEnv()", "packages/env/src/index.ts"], ["bindConfig()", "packages/config/src/index.ts"], ["bindDerivedDefault()", "packages/derived-defaults/src/index.ts"], ["two-pass runner", "packages/core/src/facade.ts"], ["annotations through combinators", "packages/core/src/annotation-state.ts"]],
    observe: ["the value runWith() and runWithSync() return, the exit code, the environment variables looked up and the values handed to load() and to resolvers"],
    note: NOTE + " Rendering of pages and messages is cut out.",
  },
  {
    id: "N01", title: "A man page shows every text as written and keeps its structure",
    statement: "Reading a generated man page as roff shows every name, metavariable, value and message exactly as it was given, in its place, with blank lines as paragraph breaks and line breaks in headings and other request arguments as spaces. No text of the program is ever read as a request or an escape sequence, hyphens of names do not break, and fonts are restored.",
    over: ["inputs", "configurations"],
    all: "every kind of message term, alone and in pairs, and every place of a page, each with every text of up to 4 (thorough: 6) characters over letters, the characters roff gives a meaning and line breaks",
    why: "Whether a text must be escaped depends on the characters, on where a line happens to start after terms are joined and on whether it stands in a request; tests try a few texts in a few places.",
    files: ["packages/man/src/roff.ts", "packages/man/src/man.ts"],
    mech: [["escaping", "packages/man/src/roff.ts"], ["page layout", "packages/man/src/man.ts"]],
    observe: ["the text formatDocPageAsMan() and formatMessageAsRoff() return, read by a reader for the requests and escapes man pages use"],
    note: NOTE,
  },
  {
    id: "I02", title: "A .env file means what the notation says",
    statement: "Reading .env files gives exactly the assignments the documented notation denotes: export prefixes, comments, the three quotings, escapes, and references to the real environment or to earlier assignments; a malformed text is an error and never a wrong value. The real environment wins over files, later files over earlier ones, missing files are skipped while any other fault of reading one surfaces, and a command substitution is run only by the hook given, with exactly the command's text.",
    over: ["inputs", "configurations", "fault_sequences"],
    all: "21 (thorough: 29) shapes of text with up to 8 free characters of the notation's own, up to 3 files each present or missing, prefixes, real variables set or not, with and without substitution hook",
    why: "Quotes, comments, escapes and references interact character by character; tests fix a few files.",
    files: ["packages/env/src/index.ts"],
    mech: [[".env reader", "packages/env/src/index.ts"], ["layering of sources", "packages/env/src/index.ts"], ["bool()", "packages/env/src/index.ts"]],
    observe: ["the variables an environment context looks up and the error it raises; the commands handed to the substitution hook"],
    note: NOTE + " The file system is modelled.",
  },
  {
    id: "I03", title: "Configuration is loaded once, as asked, and fallback values are checked",
    statement: "A run loads its configuration once, from where the command line says: a missing file or no data means defaults, anything else that goes wrong surfaces as an error, a request for help needs no configuration, and one run's data is never seen by another. A value that comes from configuration, a default or a derived default must satisfy the field's own constraints through every wrapper, exactly as if it had been typed.",
    over: ["inputs", "configurations", "fault_sequences", "schedules"],
    all: "9 outcomes of a configuration file and 8 of a load function, settled at once or later, with and without defaults; fallback values of every kind through 8 combinations of wrappers; two and three runs interleaved; symbolic paths and values",
    why: "Which of defaults, error or value appears depends on the combination of loading outcome, wrapper and source; tests try a few combinations.",
    files: ["packages/config/src/index.ts", "packages/core/src/primitives.ts", "packages/core/src/modifiers.ts", "packages/core/src/facade.ts"],
    mech: [["createConfigContext() and bindConfig()", "packages/config/src/index.ts"], ["validateValue()", "packages/core/src/modifiers.ts"], ["two-pass runner", "packages/core/src/facade.ts"]],
    observe: ["the value or error of runWith() and runWithSync(), the files read, the loads made and the metadata handed on"],
    note: NOTE + " The file system is modelled.",
  },
  {
    id: "F03", title: "Contexts are asked in order and disposed once, and no fault is lost",
    statement: "A run asks each source context once per phase in the order given: single-pass contexts once, two-pass ones again with the parsed value; earlier contexts win. Every context is disposed exactly once after everything else, whatever fails, and every fault of a context, a handler or a disposal reaches the caller.",
    over: ["inputs", "configurations", "schedules", "fault_sequences"],
    all: "1-3 contexts of 7 kinds, command lines of up to 2 symbolic tokens, a fault at every place a context, handler or completion can fail, alone and together with faulty disposals, at once and promised",
    why: "A resource leak or a swallowed fault needs a certain step to fail with certain other contexts present.",
    files: ["packages/core/src/facade.ts"],
    mech: [["phases of runWith()", "packages/core/src/facade.ts"], ["disposal", "packages/core/src/facade.ts"], ["merging of annotations", "packages/core/src/facade.ts"]],
    observe: ["the sequence of calls the contexts receive, the annotations the parser sees, and the value or error of the run"],
    note: NOTE + " Rendering of pages and messages is cut out.",
  },
  {
    id: "M01", title: "Messages, usage lines and help pages keep every text and the width asked for",
    statement: "A formatted message, usage line or help page contains every text it was given, unchanged and in order, with its paragraphs and line breaks; with a width, lines are broken only at blanks and between parts, no line consists of a blank, and a line is wider only when it cannot be broken. Usage lines keep the structure of options, brackets, repetitions and alternatives; help pages keep sections, entries, descriptions, defaults and choices in their order and columns. Colours add escape sequences only, which are always reset; the pages of a run carry the texts, name, width, colours and order given to it, an option's text before the program's.",
    over: ["inputs", "configurations"],
    all: "36 sequences of message terms, 22 usage trees and 7 help pages with up to 20 symbolic characters, with and without quotes and colours, widths from 1 (messages), 3 (usage) and 12 (pages) up to 90 and none; run(), runSync(), runAsync() and runProgram() with six texts given by the program, the options, both or neither",
    why: "Where a line is broken depends on the texts' lengths, blanks and breaks and on the width together; tests compare a few outputs.",
    files: ["packages/core/src/message.ts", "packages/core/src/usage.ts", "packages/core/src/doc.ts", "packages/core/src/facade.ts", "packages/run/src/run.ts"],
    mech: [["formatMessage()", "packages/core/src/message.ts"], ["formatUsage() and formatUsageTerm()", "packages/core/src/usage.ts"], ["formatDocPage()", "packages/core/src/doc.ts"], ["run() and runParser()", "packages/run/src/run.ts"]],
    observe: ["the texts formatMessage(), formatUsage(), formatUsageTerm() and formatDocPage() return"],
    note: NOTE,
  },
  {
    id: "D01", title: "Usage, help and completion show exactly the parts not hidden from them",
    statement: "An option, argument or command appears in usage lines, on help pages and among completions exactly when no hidden setting, its own or of a group(), object() or merge() around it, keeps it from there, and it parses the same either way. The help page for the beginning of a command line lists exactly the visible entries of the command reached, under their section titles and with their descriptions, plus those of the parsers beside it; its usage starts with the command's path. A hidden command's own help page still names it; a program of command modules hides what is inside a hidden command with it, and lists the others with their own texts.",
    over: ["inputs", "configurations"],
    all: "7 kinds of parsers in 16 arrangements of wrappers with every hidden setting of each, and a program with nested, aliased and hidden commands in 12 arrangements at every beginning of a command line of up to 2 (thorough: 3) words of up to 3 symbolic characters; 6 programs of command modules with two commands in every hidden setting",
    why: "Each combinator carries visibility and documentation on its own, and what a help page lists depends on the state the words before lead to; tests fix a few settings and command lines.",
    files: ["packages/core/src/constructs.ts", "packages/core/src/primitives.ts", "packages/core/src/usage.ts", "packages/core/src/doc.ts", "packages/core/src/internal/parser.ts", "packages/discover/src/index.ts"],
    mech: [["applyHiddenToUsage() and applyHiddenToDocFragments()", "packages/core/src/constructs.ts"], ["hidden settings of primitives", "packages/core/src/primitives.ts"], ["getDocPage()", "packages/core/src/internal/parser.ts"]],
    observe: ["formatUsage() of the parser's usage, getDocPage(), getDocPageAsync(), suggestSync() and parse()"],
    note: NOTE,
  },
  {
    id: "S03", title: "Did-you-mean hints name only near, visible, existing names, nearest first",
    statement: "A hint after a mistyped option, command or choice value names only visible names that exist, each once, within the documented edit distance, ratio and number, nearest first; a typed alias is answered with its command. In object(), command() and or() the nearest name that may come at that point is hinted whenever one is near enough. Completion candidates from several parsers are each offered once.",
    over: ["inputs", "configurations"],
    all: "strings of up to 4 symbolic characters and candidates with up to 4, every threshold setting of 6; 12 programs over all combinators at up to 5 positions with words of up to 9 characters, 1-2 of them symbolic",
    why: "Which names are near is a property of pairs of strings; which are visible and valid depends on the grammar and the position.",
    files: ["packages/core/src/suggestion.ts", "packages/core/src/usage.ts", "packages/core/src/usage-internals.ts", "packages/core/src/constructs.ts", "packages/core/src/primitives.ts", "packages/core/src/valueparser.ts"],
    mech: [["levenshteinDistance(), findSimilar()", "packages/core/src/suggestion.ts"], ["candidates", "packages/core/src/usage-internals.ts"], ["scoped hints", "packages/core/src/constructs.ts"]],
    observe: ["the results of findSimilar() and deduplicateSuggestions() and the error messages of parse() and parseAsync()"],
    note: NOTE,
  },
  {
    id: "S04", title: "Completions reach the shell as they are; scripts call the program back exactly",
    statement: "A completion request prints what the parser suggests for the words given, in order, and then the visible help and version options where they would be honoured, each once, and ends with code 0. For each shell every suggestion is one record whose word, description and file request the script reads back unchanged (control characters as blanks). A script calls the program with exactly the arguments it was made for, and unsafe program names are refused.",
    over: ["inputs", "configurations"],
    all: "lists of up to 2 (thorough: 3) suggestions of up to 3 characters of any kind for the 5 shells, scripts for any program name of up to 3 characters and 2 arguments of up to 3, and requests over 8 grammars with up to 2 (thorough: 3) words of up to 2 symbolic characters before the word completed",
    why: "Which characters collide with a transport's separators, escapes and quotes, and which words come before, are properties of all strings; tests try a few of each.",
    files: ["packages/core/src/completion.ts", "packages/core/src/facade.ts"],
    mech: [["encodeSuggestions() and generateScript() of the shells", "packages/core/src/completion.ts"], ["completion requests", "packages/core/src/facade.ts"]],
    observe: ["what encodeSuggestions() and generateScript() give, and what runParser() and runParserAsync() print for a completion request"],
    note: NOTE,
  },
  {
    id: "X01", title: "A program made of command modules has the commands its files name",
    statement: "Every module file under the command directory is one command, at the path its directories and name without suffix spell (an entry file stands for its directory); declaration, test and other files are not, links are followed but no directory is entered inside itself, and two files for one path, a module that exports no command and one that declares another path are refused; a directory, a module map and a generated module agree. A command line runs the deepest command its words name, by its name or a second name, with the value that command's own grammar reads from the rest, and is refused exactly when that grammar refuses it.",
    over: ["inputs", "configurations"],
    all: "trees of up to 3 files with names of 4-9 symbolic characters, four suffix lists, three entry-name settings, seven bases or output places; 13 trees with links and modules of nine kinds; 20 programs of up to three levels with command lines of up to 5 symbolic tokens",
    why: "File names, suffixes and bases combine freely, and which of several commands reads a line depends on every token of it; tests list a few layouts and lines.",
    files: ["packages/discover/src/index.ts", "packages/discover/src/generator.ts", "packages/discover/src/command.ts"],
    mech: [["command paths and discovery", "packages/discover/src/index.ts"], ["generated module maps", "packages/discover/src/generator.ts"], ["command tree parser", "packages/discover/src/index.ts"]],
    observe: ["what discoverCommands(), commandsFromModules() and generateCommandsModule() give, and what parse() makes of createProgramParser()"],
    note: NOTE,
  },
  {
    id: "X02", title: "A program's hooks nest around its handler, and its first failure is the one told",
    statement: "runProgram() runs the hooks of the program, those of the command named and its handler in the documented nesting, each once and one after another, with the contexts of their own scope and the handler's result; after a failure only the onError hooks of the scopes entered run, and the first failure is the one thrown. Nothing runs for a command line that is refused, and contexts see the value of the command named.",
    over: ["configurations", "fault_sequences", "inputs"],
    all: "every combination of the six hooks, four kinds of context, up to two faults thrown or rejected at any of seven steps, at once or two turns later; 1-2 contexts; command lines of up to 4 symbolic tokens",
    why: "Which hooks must still run depends on which hooks exist, where the first fault happens and whether another follows; tests pick single faults.",
    files: ["packages/discover/src/index.ts", "packages/discover/src/command.ts"],
    mech: [["dispatchInvocation() and runHookScope()", "packages/discover/src/index.ts"], ["wrapProgramContext()", "packages/discover/src/index.ts"]],
    observe: ["the order, arguments and outcome of every hook, handler and context of runProgram()"],
    note: NOTE,
  },
  {
    id: "P01", title: "A prompt asks exactly when neither command line nor source gives the value",
    statement: "A parser with a prompt fallback takes the command line's value, else that of its other sources, and only else asks, once per value; values and verdict are those of the parser without prompts given the answers. A command line that asks for help or version never prompts, and a refused one keeps its error. The Inquirer.js and Clack integrations pass the answer on unchanged after their own checks, tell a cancelled prompt as a failure, and let other errors through.",
    over: ["inputs", "configurations", "fault_sequences"],
    all: "two prompted fields around 13 kinds of parsers in 15 places, each given, from a source or prompted, with values of up to 2 symbolic characters, run with no, one-pass or two-pass contexts; all prompt kinds of the two integrations with answers of up to 4 symbolic characters",
    why: "Whether a prompt runs depends on how wrappers, branches and the two passes combine with what was typed; tests try a few combinations with a fixed answer.",
    files: ["packages/prompt/src/index.ts", "packages/inquirer/src/index.ts", "packages/clack/src/index.ts", "packages/core/src/constructs.ts", "packages/core/src/facade.ts"],
    mech: [["createPromptAdapter()'s parser wrapper", "packages/prompt/src/index.ts"], ["prompt() of Inquirer.js", "packages/inquirer/src/index.ts"], ["prompt() of Clack", "packages/clack/src/index.ts"]],
    observe: ["the results of parseAsync() and runWithAsync() and the calls the prompt libraries receive"],
    note: NOTE,
  },
  {
    id: "E01", title: "A value parser made from a schema accepts exactly what the schema accepts",
    statement: "A value parser built from a Zod, Valibot or Standard Schema accepts a text exactly when the schema accepts it (Zod Booleans read their documented words), with the schema's output as value; a refusal tells the schema's issues or the caller's own message. Asynchronous checks are refused as programming errors by the synchronous parsers. Choices found in the schema are offered as completions, and only those.",
    over: ["inputs", "configurations"],
    all: "27 Zod and 21 Valibot schemas and arbitrary Standard Schema validators with inputs of up to 3 symbolic characters (Booleans: up to 7) and words of enumerations and literals of up to 2 symbolic characters",
    why: "The adapters look inside the schema to find choices, Booleans and asynchronous parts; which texts are affected depends on every nesting of wrappers and on the text.",
    files: ["packages/zod/src/index.ts", "packages/valibot/src/index.ts", "packages/standard-schema/src/index.ts"],
    mech: [["zod()", "packages/zod/src/index.ts"], ["valibot()", "packages/valibot/src/index.ts"], ["standardSchema()", "packages/standard-schema/src/index.ts"]],
    observe: ["parse(), suggest() and choices of the value parsers, and the real schema's own verdict"],
    note: NOTE,
  },
  {
    id: "L01", title: "Logging flags set exactly the level and the output they name",
    statement: "The level is the base level made one step more verbose per verbosity flag up to the most verbose, or the debug level exactly when the debug flag is given, or the level named in any case, and else the default. `-` logs to the console, any other path that is not blank to that file, and a disabled output option is refused. Each record is written once, as its formatted line, to the stream set or chosen for its level.",
    over: ["inputs", "configurations"],
    all: "every level setting and every base or default level with up to 4 tokens of up to 4 symbolic characters; log outputs of up to 3 symbolic characters with every formatter setting; records with symbolic texts and numbers, every level and stream setting",
    why: "Counts, clusters and names combine freely on a command line, and which stream and line a record gets depends on level, formatter and text together.",
    files: ["packages/logtape/src/loglevel.ts", "packages/logtape/src/verbosity.ts", "packages/logtape/src/debug.ts", "packages/logtape/src/output.ts", "packages/logtape/src/preset.ts"],
    mech: [["verbosity(), debug(), logLevel()", "packages/logtape/src"], ["logOutput() and sinks", "packages/logtape/src/output.ts"], ["loggingOptions() and createLoggingConfig()", "packages/logtape/src/preset.ts"]],
    observe: ["the results of parse(), the lines written to the console and the configuration createLoggingConfig() gives"],
    note: NOTE,
  },
];
