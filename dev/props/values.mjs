import { NOTE } from "./core.mjs";
const VP = "packages/core/src/valueparser.ts";
export default [
  {
    id: "V01", title: "Numbers, ports and sizes are read exactly, within their bounds",
    statement: "integer(), float(), port() and fileSize() accept exactly the texts of their notation whose exact value lies within the configured bounds, and return that value: nothing is rounded silently, no bound is off by one, and no other text is accepted. A size formatted for help or defaults parses back to the same number of bytes.",
    over: ["inputs", "configurations"],
    all: "number and bigint variants, symbolic bounds, texts of up to 4 characters and digit strings of up to 19, sizes of up to 5 characters plus a unit of up to 3 (and of 11) printable characters, formatting of 9 ranges of up to 60000 values",
    why: "Tests use a handful of numbers; precision, bound and unit mistakes show up for particular magnitudes only.",
    files: [VP],
    mech: [["integer(), float(), port(), fileSize()", VP]],
    observe: ["the result of the value parser", "its format()"],
    note: NOTE,
  },
  {
    id: "V02", title: "Choices and number lists mean exactly what was declared",
    statement: "choice() accepts exactly the declared choices (ignoring case only when asked to) and returns the declared value, and a number choice accepts exactly the canonical notation of the declared numbers. Formatting an accepted value yields a text that parses back to it.",
    over: ["inputs", "configurations"],
    all: "7 lists of string choices (overlapping, repeated, mixed case, non-ASCII), 3 bijective mappings, 8 lists of number choices; every typed text of up to 5 characters, scientific notation with 7 exponent forms",
    why: "Case folding, number notations and prototype names each have inputs for which a plausible comparison is wrong.",
    files: [VP],
    mech: [["choice()", VP]],
    observe: ["the result of the value parser", "its format()"],
    note: NOTE,
  },
  {
    id: "V03", title: "Addresses and names are validated, restricted and canonicalised exactly",
    statement: "ipv4(), ipv6(), ip(), cidr(), macAddress(), hostname(), domain(), email(), socketAddress() and portRange() accept exactly the well-formed texts that their options allow, in every spelling of an address, including IPv4 addresses mapped into IPv6. The result is the canonical form of what was typed, and its formatted form parses back to it.",
    over: ["inputs", "configurations"],
    all: "about 130 templates of addresses and names with 1-12 symbolic characters, every option that allows or disallows a class of addresses, 6 separators, symbolic prefix and port bounds",
    why: "These parsers guard security decisions (no private or loopback targets); the gaps lie in unusual spellings that tests do not enumerate.",
    files: [VP],
    mech: [["address and name parsers", VP], ["parseAndNormalizeIpv6(), mapped-address checks", VP]],
    observe: ["the result of the value parser", "its format()"],
    note: NOTE,
  },
  {
    id: "V04", title: "Identifiers, versions, pairs, cron lines and colours parse exactly",
    statement: "uuid(), semVer(), keyValue(), cron() and color() accept exactly the texts of their notation that their options allow, and the result carries the fields that were typed, in canonical form. Their formatted result parses back to the same value.",
    over: ["inputs", "configurations"],
    all: "about 200 templates of versions, identifiers, pairs, cron fields and colours with 1-12 symbolic characters, every option of these parsers, and all 149 named colours with one symbolic letter",
    why: "Each notation has ranges, steps, leading zeros, separators and aliases whose corner cases tests sample only.",
    files: [VP],
    mech: [["uuid(), semVer(), keyValue(), cron(), color()", VP]],
    observe: ["the result of the value parser", "its format()"],
    note: NOTE,
  },
  {
    id: "V05", title: "path() accepts exactly the paths its settings allow",
    statement: "path() accepts a path exactly if it is not empty, has one of the allowed extensions, and meets the existence demands (exists, does not exist, is a file, is a directory, the parent exists) on the file system as it is, and returns it unchanged. The completion it asks for describes the same kind of entries and the same extensions.",
    over: ["inputs", "configurations", "fault_sequences"],
    all: "every setting of existence, type and extensions; symbolic paths of up to 4-6 characters; a symbolic file system in which every looked-up path may be missing, a file, a directory, something else, or fail",
    why: "The verdict is a function of the settings, the text and the state of the file system together; tests create a few real files.",
    files: ["packages/run/src/valueparser.ts"],
    mech: [["path()", "packages/run/src/valueparser.ts"]],
    observe: ["the result of parse(), the suggestion offered, and the file-system queries made"],
    note: NOTE + " node:fs and node:path are models.",
  },
  {
    id: "V06", title: "Combined value parsers take what their parts take; every value writes back",
    statement: "firstOf(), transform(), keyValue() and json() accept exactly the texts their parts and their notation accept, choose the first part that does, and yield that part's value. A value written by a value parser's format() is read back by the same parser as an equal value, and validating or normalizing a value it produced changes nothing that matters.",
    over: ["inputs", "configurations"],
    all: "combinations of value parsers nested up to two deep over symbolic texts of up to 4-6 characters; JSON texts from templates with up to 5 symbolic characters; round trips for every built-in value parser over symbolic texts of its notation",
    why: "Combination order, separators and escapes interact with the texts; tests try a few of each.",
    files: ["packages/core/src/valueparser.ts"],
    mech: [["firstOf(), transform(), keyValue(), json()", "packages/core/src/valueparser.ts"], ["format(), validate() and normalize() of the value parsers", "packages/core/src/valueparser.ts"]],
    observe: ["parse(), format(), validate() and normalize() of the value parsers"],
    note: NOTE,
  },
  {
    id: "T01", title: "Date and time parsers accept exactly the texts of their own kind",
    statement: "plainDate(), plainTime(), plainDateTime(), plainYearMonth() and plainMonthDay() accept a text exactly if it has an ISO 8601 form of their own kind, with an optional calendar, and Temporal accepts it; instant(), duration() and zonedDateTime() accept what Temporal does; the value is Temporal's. timeZone() accepts the documented names in any case, giving their own spelling, and the regional names Temporal knows, and offers those with the prefix typed. A refusal tells the text or the message set, and a missing Temporal is an error of the program.",
    over: ["inputs", "configurations"],
    all: "82 templates of texts of up to 24 characters with 1-2 symbolic ones, under a Temporal whose verdict is symbolic or which is missing; all 36 names of time zones with one symbolic character",
    why: "Signs, separators, fractions, calendars and the parts that may be left out combine; tests try some texts of each kind.",
    files: ["packages/temporal/src/index.ts"],
    mech: [["the nine value parsers", "packages/temporal/src/index.ts"]],
    observe: ["the result, placeholder and suggestions of the value parser, and what it asks Temporal"],
    note: NOTE + " Temporal is a model.",
  },
  {
    id: "G01", title: "Git parsers accept and offer exactly what the repository has",
    statement: "gitBranch(), gitRemoteBranch(), gitTag() and gitRemote() accept and offer exactly the names the repository of the directory set has; gitCommit() and gitRef() expand an unambiguous abbreviation or a name to its object and refuse every other text. Commits are offered from the latest ones, shortened to at least seven characters as far as they stay apart. A refusal, also of a repository that cannot be read, tells the text and the names there are, or the message set; completion never fails.",
    over: ["inputs", "configurations", "fault_sequences"],
    all: "repositories of 0-3 names of 1-2 symbolic characters and three objects that differ in 1-2 symbolic places, every parser, made both ways, with symbolic inputs and prefixes, and with listings that fail",
    why: "Tests use one small repository whose commits never collide; prefixes, collisions, depths, missing remotes and faults combine.",
    files: ["packages/git/src/index.ts"],
    mech: [["the six value parsers and createGitParsers()", "packages/git/src/index.ts"]],
    observe: ["the result and suggestions of the value parser, and what it reads of the repository"],
    note: NOTE + " isomorphic-git is a model.",
  },
];
