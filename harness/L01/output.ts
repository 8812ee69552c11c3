import { object } from "@optique/core/constructs";
import { option } from "@optique/core/primitives";
import { optional } from "@optique/core/modifiers";
import { parse, suggestSync } from "@optique/core/parser";
import { string } from "@optique/core/valueparser";
import { formatMessage, message } from "@optique/core/message";
import { createConsoleSink, createLoggingConfig, createSink, loggingOptions, logOutput } from "@repo/packages/logtape/src/index.ts";
const CH: any = [[0x20, 0x7e]], PATH: any = [[0x20, 0x7e], [9, 10], [0xa0, 0xa1], 0x3000];
const o: any = option;
const LEVELS = ["trace", "debug", "info", "warning", "error", "fatal"];
export default {
  name: "output",
  bounds: "log outputs of 0-3 characters, each unknown, given to logOutput() or the preset with default or own names, a fixed formatter, a formatter option or none, the output option disabled or not; records of up to three parts (texts of unknown characters, numbers), six levels, console streams fixed, chosen per level, invalid; formatters giving texts, lists or nothing; the file sink's path and formatter; completion after prefixes of 0-2 characters",
  assumptions: ["@logtape/file is a stand-in that remembers the path it is given"],
  covers: ["console", "file", "refused", "absent", "stdout", "stderr", "invalid stream", "offered"],
  cases() {
    const out: any[] = [];
    for (const preset of ["none", "on", "off"]) for (const fmt of ["none", "fixed", "option"]) for (const given of [-1, 0, 1, 2, 3]) for (const pick of fmt === "option" ? [false, true] : [false]) for (const own of [false, true]) out.push(["parse", preset, fmt, given, pick, own]);
    for (const len of [0, 1, 2]) for (const own of [false, true]) out.push(["suggest", len, own]);
    for (const stream of ["none", "null", "stdout", "stderr", "resolver", "both", "bad", "badresolver"]) for (const fmt of ["none", "text", "crlf", "list", "nothing"]) out.push(["sink", stream, fmt]);
    return out;
  },
  async run(sx: any) {
    if (sx.case[0] === "suggest") {
      // the console and file names are offered after the option
      const [, len, own] = sx.case;
      const prefix = sx.str("prefix", { len, chars: CH });
      const long = own ? "--out" : "--log-output";
      const got: any[] = [...suggestSync(logOutput(own ? { long } as any : {}), [long, prefix])];
      const dash = sx.is(sx.eq(prefix, "-".slice(0, len)));
      sx.assert(got.filter((x) => x.kind === "literal" && x.text === "-").length === (dash ? 1 : 0), "the console is offered for another prefix, or not for its own");
      sx.assert(got.filter((x) => x.kind === "file" && x.type === "file").length === 1, "files are not offered");
      sx.cover("offered");
      return;
    }
    if (sx.case[0] === "sink") {
      const [, stream, fmt] = sx.case;
      const level = sx.pick("level", LEVELS);
      const parts: any[] = [sx.str("p0", { len: 2, chars: CH }), sx.int("p1", -9, 99), sx.str("p2", { len: 1, chars: CH })];
      const cat = [sx.str("c0", { len: 1, chars: CH }), sx.str("c1", { len: 1, chars: CH })];
      const record: any = { level, category: cat, message: parts, rawMessage: "", timestamp: 86400000, properties: {} };
      const line = sx.str("line", { len: 2, chars: CH });
      const list = [line, 7];
      const formatter = fmt === "text" ? () => line + "\n" : fmt === "crlf" ? () => line + "\n\r\n" : fmt === "list" ? () => list : fmt === "nothing" ? () => undefined : undefined;
      const asked: any[] = [];
      const serious = ["warning", "error", "fatal"];
      const resolver = (l: any) => { asked.push(l); return stream === "badresolver" ? "x" : serious.includes(l) ? "stderr" : "stdout"; };
      const options: any = { formatter };
      if (stream === "null") options.stream = null;
      if (["stdout", "stderr"].includes(stream)) options.stream = stream;
      if (stream === "bad") options.stream = sx.str("stream", { len: 6, chars: "stdouer" });
      if (stream === "both") options.stream = "stdout";
      if (["resolver", "both", "badresolver"].includes(stream)) options.streamResolver = resolver;
      const bad = stream === "badresolver" || stream === "bad" && !sx.is(sx.eq(options.stream, "stdout")) && !sx.is(sx.eq(options.stream, "stderr"));
      const log: any[] = [];
      const saved = [console.error, console.log];
      let threw: any;
      console.error = (...a: any[]) => { log.push(["stderr", a]); };
      console.log = (...a: any[]) => { log.push(["stdout", a]); };
      const via = sx.pick("via", ["direct", "sink", "output"]);
      // the sink's own formatter comes before the one chosen with the output
      const fallback = fmt === "none" && via === "output" ? () => list : () => "no";
      try { const made: any = via === "direct" ? createConsoleSink(options) : await createSink({ type: "console", ...(via === "output" ? { formatter: fallback } : {}) } as any, options); made(record); } catch (e) { threw = e; }
      [console.error, console.log] = saved;
      if (bad) { sx.cover("invalid stream"); sx.assert(threw instanceof TypeError && log.length === 0, "a record is written although the stream is none"); return; }
      sx.assert(threw === undefined && log.length === 1, "a record is not written exactly once");
      const to = options.streamResolver ? (serious.includes(level) ? "stderr" : "stdout") : stream === "bad" ? (sx.is(sx.eq(options.stream, "stdout")) ? "stdout" : "stderr") : stream === "stdout" ? "stdout" : "stderr";
      sx.cover(to);
      sx.assert(log[0][0] === to, "a record is written to the other stream");
      if (options.streamResolver) sx.assert(asked.length === 1 && asked[0] === level, "the stream is chosen by something else than the record's level");
      const want: any[] = fmt === "none" && via === "output" ? list : fmt === "none" ? ["1970-01-02T00:00:00.000Z [" + level.toUpperCase().padEnd(7) + "] " + cat[0] + "." + cat[1] + ": " + parts[0] + String(parts[1]) + parts[2]] : fmt === "text" ? [line] : fmt === "crlf" ? [line + "\n"] : fmt === "list" ? list : [];
      sx.assert(log[0][1].length === want.length && want.every((w, i) => sx.is(sx.eq(log[0][1][i], w))), "another line is written than the record's");
      return;
    }
    const [, preset, fmt, given, pick, own] = sx.case;
    const fixed = () => "x";
    const formatter: any = fmt === "fixed" ? fixed : fmt === "option" ? "--fmt" : undefined;
    const mine = message`mine`;
    const long = own ? "--out" : "--log-output";
    const out: any = preset === "none" ? logOutput({ formatter, ...(own ? { long: "--out", short: "-o", errors: { emptyPath: mine } } : {}) } as any) : loggingOptions({ level: "option", formatter, output: { enabled: preset === "on", ...(own ? { long: "--out" } : {}) } } as any);
    const parser: any = object({ s: optional(o("-s", string())), f: out });
    const path = given >= 0 ? sx.str("path", { len: given, chars: PATH }) : undefined;
    const args: any[] = ["-s", "1"];
    if (path !== undefined) { if (own && preset === "none") args.push("-o", path); else args.push(long + "=" + path); }
    if (pick) args.push("--fmt", "jsonl");
    const r: any = parse(parser, args);
    sx.observe("ok", r.success);
    if (preset === "off" && path !== undefined) { sx.cover("refused"); sx.assert(!r.success, "the output option is accepted although it is disabled"); return; }
    if (path !== undefined && [...Array(given)].every((_, i) => sx.is(sx.test(/\s/u, path[i])))) {
      sx.cover("refused");
      sx.assert(!r.success, "a blank path is taken for a log file");
      if (own && preset === "none") sx.assert(formatMessage(r.error).includes("mine"), "the caller's own message is not told");
      return;
    }
    sx.assert(r.success, "a log output is refused");
    const got: any = preset === "none" ? r.value.f : r.value.f.logOutput;
    if (preset !== "none") sx.assert(r.value.f.logLevel === "info", "the log level is not the default");
    if (path === undefined && preset === "none" && !pick) { sx.cover("absent"); sx.assert(got === undefined, "there is an output although none is asked for"); return; }
    const toFile = path !== undefined && !sx.is(sx.eq(path, "-"));
    sx.cover(toFile ? "file" : "console");
    sx.assert(got.type === (toFile ? "file" : "console"), "the log goes to a file instead of the console, or the other way round");
    if (toFile) sx.assert(sx.eq(got.path, path), "the log goes to another file than the one named");
    const want = fmt === "fixed" ? fixed : undefined;
    if (pick) sx.assert(typeof got.formatter === "function" && got.formatter !== fixed, "the formatter chosen is not used");
    else sx.assert(got.formatter === want, "another formatter is used");
    if (toFile) {
      const sink: any = await createSink(got, { stream: "stdout" });
      sx.assert(sx.eq(sink.path, path) && (sink.options?.formatter === got.formatter), "the file sink is made for another file or formatter");
    }
    const extra = { category: ["x"] };
    const cfg: any = await createLoggingConfig(preset === "none" ? { logLevel: "error", logOutput: got } : r.value.f, {}, { sinks: { more: fixed as any }, loggers: [extra as any] } as any);
    sx.assert(cfg.loggers.length === 2 && cfg.loggers[0].category.length === 0 && cfg.loggers[0].lowestLevel === (preset === "none" ? "error" : "info") && cfg.loggers[0].sinks.join() === "default" && cfg.loggers[1] === extra && cfg.sinks.more === fixed && typeof cfg.sinks.default === "function", "the configuration made is not the one parsed, with the additions");
  },
};
