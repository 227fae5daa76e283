#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CLI = "src/cli.rs"
p("C01", "Chained conversions conserve the plan",
  "A plan that the text format can express is equal to the original after any sequence of successful conversions between text, JSON, YAML and binary protobuf, in any order and with any literal-type or layout display option, whatever failed, interrupted, crashed or repeated conversion attempts happened in between. Once a plan is in text form, converting it onwards and back to text with the same options reproduces the same bytes, and validating it does too.",
  ["histories", "inputs", "fault_sequences", "crash_points"],
  "for every expressible plan, every history of conversions over stored files and every placement of I/O faults, crashes and retries among them",
  "The round-trip tests run one conversion there and back on a few dozen hand-written plans, always on perfect in-memory streams; none chains formats, goes through the command with files, or interleaves failed and crashed attempts.",
  [CLI, "src/lib.rs", "src/json.rs", "src/parser/", "src/textify/"],
  [("text, JSON, YAML and protobuf codecs", "src/cli.rs: Format::read_plan, Format::write_plan"),
   ("text parser", "src/parser/structural.rs: Parser::parse_plan"),
   ("text formatter", "src/textify/plan.rs: PlanWriter")],
  observe=["stored files after each conversion step", "the plan decoded from the final file"])
p("C02", "Input delivery never changes the result",
  "For the same input bytes the outcome of a conversion or validation - exit status, output bytes and reported problem - is the same however those bytes are delivered: in one piece, one byte at a time, cut inside a multi-byte character, with interrupted or short calls in between, from a file or from standard input. Reading finishes within a bounded number of calls once the input ends.",
  ["schedules", "fault_sequences", "inputs"],
  "for every input (valid or not), every chunking of it and every placement of interruptions",
  "The tests only read from in-memory cursors and whole files, which always deliver everything in one call; no test delivers short reads or interruptions.",
  [CLI], [("whole-input reading", "src/cli.rs: read_text_input, read_binary_input"), ("stream selection", "src/cli.rs: get_reader")],
  observe=["result of the library's plan-reading entry point", "exit status and output of the command"])
p("C03", "A failed read is never mistaken for the end of the input",
  "If reading the input fails at any point, however many bytes were already delivered and even if those bytes form a complete plan, the conversion or validation reports failure and writes no plan output.",
  ["fault_sequences", "inputs"],
  "for every input, format and every offset and kind of read failure",
  "No test injects a read error; prefixes of text and protobuf plans are often valid plans themselves, so only a fault placed at the right offset tells an error from an end of input.",
  [CLI], [("error propagation from the reader", "src/cli.rs: read_text_input, read_binary_input, Format::read_plan")],
  observe=["reported outcome and bytes that reached the destination"])
p("C04", "Success means the whole output was delivered",
  "When a conversion or validation reports success, every byte of its output has reached the destination exactly once and in order, even if the destination accepts only short writes or interrupts calls. If the destination rejects any part - full disk, broken pipe, I/O error, also when that part was still buffered inside the program - the run reports failure, and what reached the destination is a prefix of the complete output.",
  ["fault_sequences", "schedules", "inputs"],
  "for every output, every acceptance pattern of the destination and every offset and kind of write or flush failure",
  "The tests write to growable in-memory vectors or healthy files; no test sees a short write, an error or a failing final flush.",
  [CLI], [("complete write", "src/cli.rs: write_text_output, write_binary_output"), ("destination selection", "src/cli.rs: get_writer")],
  observe=["bytes at the destination versus exit status"])
p("C05", "A failed conversion leaves existing files alone",
  "A run that fails because its input cannot be opened, read or parsed, because a format cannot be determined, or because the plan cannot be encoded in the target format leaves an already existing output file byte for byte as it was and creates no new one. No run modifies its input file unless that file is also the named output, and converting a file onto itself gives the same result as converting it to a fresh file.",
  ["fault_sequences", "inputs", "histories", "configurations"],
  "for every command line, every initial set of files and every failure before output can be produced",
  "The CLI tests never run the command against an existing output file and a failing input.",
  [CLI], [("order of opening, reading and writing", "src/cli.rs: Cli::run_inner"), ("destination selection", "src/cli.rs: get_writer")],
  observe=["contents of all files before and after each run"])
p("C06", "Exit status and streams tell the truth",
  "The command exits with success exactly when the complete plan was produced and nothing was wrong with it (wrong, when the output is text: a required part is missing, a declaration is contradictory or refers to nothing, or a relation, expression, type or literal value, or a part of one that is not left out by documented design or merely a hint, has no text form); a plan with formatting problems still yields its full best-effort text, together with a failing exit status and one diagnostic per problem on the error stream. Standard output carries plan bytes and nothing else, every failure leaves a diagnostic on the error stream, and trouble with the error stream never turns a failure into a success.",
  ["fault_sequences", "inputs", "configurations"],
  "for every command line, plan and fault placement on all streams",
  "Unit tests call the inner functions; no test observes the real process's exit status, both output streams and faults on them together.",
  [CLI, "src/main.rs"], [("exit code mapping", "src/cli.rs: Cli::run_with_extensions"), ("best-effort output before reporting", "src/cli.rs: Format::write_plan")],
  observe=["exit status, standard output, standard error, files"])
p("C07", "Concurrent callers do not affect one another",
  "Any number of threads may parse, format and convert at the same time, sharing one extension registry or using copies of it, and each call returns exactly what it returns when it runs alone: no result, problem report or extension payload leaks from one call to another, and no call blocks another forever.",
  ["schedules", "histories", "inputs"],
  "for every interleaving of concurrent calls, including calls re-entered from extension handlers",
  "All tests are single-threaded per call; interleavings are never controlled.",
  ["src/lib.rs", "src/extensions/registry.rs", "src/textify/foundation.rs", "src/parser/structural.rs"],
  [("per-call problem queue", "src/textify/foundation.rs: ErrorQueue"), ("shared immutable handlers", "src/extensions/registry.rs: ExtensionRegistry")],
  observe=["return values of each call against the same call run alone"])
p("C08", "Results depend on the inputs only",
  "The bytes produced, the plan parsed and the problems reported for given inputs, options and registered extensions are the same in every process and thread, at any time of day, under any hash seed, locale, time zone and environment, and regardless of what was parsed or formatted before.",
  ["schedules", "histories", "configurations", "inputs"],
  "for every ambient state (hash seeds, clock, environment, thread, preceding calls)",
  "Each test process sees one random hash seed and one clock, and compares against fixed text, so an order that depends on the seed or on earlier calls passes most of the time.",
  ["src/extensions/registry.rs", "src/extensions/args.rs", "src/parser/relations.rs", "src/json.rs", "src/textify/", CLI],
  [("ordered containers where order is visible", "src/extensions/simple.rs: SimpleExtensions; src/extensions/args.rs: ExtensionArgs"), ("sorted reporting", "src/extensions/registry.rs: extension_names; src/extensions/args.rs: ArgsAccess::finish")],
  observe=["outputs of repeated executions under different ambient states"])
p("C09", "A failing extension handler is contained when formatting",
  "When extension handlers fail, reject their payload, are missing, or meet damaged payloads while a plan is formatted, text is still produced: each failing element is visibly marked in place, every other part of the plan reads as it would without the failure (except that columns computed from a failing relation's own columns may be shown by position), and each failure is reported exactly once, in plan order. A later call with the handlers healthy again gives the clean text and no problems, even after a handler panicked.",
  ["fault_sequences", "histories", "inputs"],
  "for every plan with extension payloads and every set of handler calls that fail, in every way they can",
  "The tests cover a handful of single failing payloads in fixed plans; combinations, positions, failures in succession and recovery are not covered.",
  ["src/extensions/registry.rs", "src/textify/rels.rs", "src/textify/addenda.rs", "src/textify/extensions.rs"],
  [("best-effort decoding", "src/textify/addenda.rs; src/textify/rels.rs"), ("problem queue", "src/textify/foundation.rs: ErrorQueue")],
  observe=["text and problem list against the fault-free text"])
p("C10", "A failing extension handler is never swallowed when parsing",
  "If any extension used in a text plan is not registered, or its handler fails, parsing fails and no plan is returned - never a plan in which that extension's payload is missing, empty or replaced - and the error names the line at fault. Once the handler is healthy, the same text parses to the same plan as if nothing had failed, also after a handler panicked.",
  ["fault_sequences", "histories", "inputs"],
  "for every text plan with extensions and every handler call that fails",
  "Tests cover one unregistered name and a few argument errors; no test fails the n-th of many handler calls or checks recovery.",
  ["src/parser/structural.rs", "src/parser/relations.rs", "src/extensions/registry.rs"],
  [("hard error on any detail failure", "src/parser/relations.rs: RelationParsingContext::resolve_extension_detail, resolve_addendum_detail")],
  observe=["parse result"])
p("C11", "Registration is all-or-nothing and local to one registry",
  "After any history of registrations and copies, every registry contains exactly the extensions whose registration succeeded on it (or on the registry it was copied from, before the copy): a rejected registration - duplicate name or conflicting payload type within one kind - changes nothing, kinds are independent of each other, and copies never affect one another. Names are listed in sorted order and every registered extension stays usable, in both directions, under its own name.",
  ["histories", "schedules"],
  "for every history of registrations, rejections, copies, lookups and uses",
  "Tests check single rejections on two-entry registries, not histories, copies or concurrent use of copies.",
  ["src/extensions/registry.rs"],
  [("check-then-insert registration", "src/extensions/registry.rs: ExtensionRegistry::register"), ("per-kind namespaces", "src/extensions/registry.rs: ExtensionType")],
  state=[("handlers", "registered handlers by kind and name", "src/extensions/registry.rs: ExtensionRegistry")],
  observe=["registry queries and parse/format results"])
p("C12", "Every supplied extension argument is accounted for",
  "Text that passes arguments to an extension is accepted only if the handler succeeded and looked at every named argument, and at the positional ones if there are any; otherwise parsing fails, and if the handler itself failed its own error is the one reported. An argument name given twice is rejected. Whatever the order in which a handler asks, it sees exactly the values written in the text, and asking for something absent, asking twice, or asking for an argument as the wrong type never makes another, unread argument count as read.",
  ["histories", "inputs", "fault_sequences"],
  "for every argument list and every sequence of accesses a handler may make",
  "Tests exercise one forgotten named and one forgotten positional argument with a fixed access order.",
  ["src/extensions/args.rs", "src/parser/extensions.rs"],
  [("access tracking", "src/extensions/args.rs: ArgsAccess"), ("final check", "src/extensions/args.rs: ArgsAccess::finish, ExtensionArgs::parse")],
  observe=["parse result, values seen by the handler"])
p("C13", "Damaged stored plans never crash the reader",
  "A stored plan file in any format that was torn, truncated, overwritten by stale data, or had bits flipped is either rejected with a reported error or read as some plan; reading it never crashes, aborts or hangs, for plans nested no deeper than the binary format itself allows. Any plan so obtained can be formatted as text and encoded again without crashing.",
  ["fault_sequences", "inputs"],
  "for every stored plan and every sequence of storage faults applied to it",
  "Tests use a few hand-written malformed inputs; storage damage lands anywhere.",
  ["src/parser/", "src/textify/", "src/json.rs", CLI],
  [("fallible parsing", "src/parser/common.rs: MessageParseError"), ("best-effort formatting", "src/textify/foundation.rs: PlanError")],
  observe=["process outcome, library return values"])
p("C14", "An interrupted run can simply be run again",
  "If a command whose output is a different file from its input is killed or fails at any instant, running it again once the trouble is over produces the same output, diagnostics and exit status as a run that was never interrupted, whatever the interrupted run left behind; the same holds for a chain of commands in which each reads the previous one's output. An interrupted run changes no existing file other than its output.",
  ["crash_points", "histories", "fault_sequences"],
  "for every command, every crash point and every sequence of interrupted attempts",
  "No test interrupts the command.",
  [CLI], [("output replaced, not appended", "src/cli.rs: get_writer")],
  observe=["files and exit status after the rerun"])
p("C15", "JSON extension payloads do not depend on descriptor history",
  "A JSON plan with extension payloads written inline reads as the same plan as one with the payloads in raw form, whatever the order, repetition and overlap in which payload descriptors were supplied (each file's content being the same wherever it is supplied, and its imports supplied too), and alongside whichever other descriptors, registrations and copies of the registry; an inline payload whose type is not described is rejected. Supplying descriptors never changes how any other format or plan is read.",
  ["histories", "inputs", "configurations"],
  "for every history of descriptor additions and registrations and every plan using them",
  "Tests supply one descriptor once.",
  ["src/json.rs", "src/extensions/registry.rs"],
  [("descriptor merging", "src/json.rs: build_descriptor_pool"), ("raw form first, then reflective form", "src/json.rs: parse_json")],
  observe=["plan read"])
p("C16", "Stored input is read whole or refused",
  "A stored plan that a torn, lost, repeated or misdirected write has changed is never partly read: if a reader accepts a file, everything in the file is accounted for in the plan. JSON and YAML: the file is one complete document and nothing follows it, and every field of it that the plan schema knows is in the plan with the value written (unknown keys may be ignored, as protobuf allows). Protobuf: the whole file decodes. Text: every relation, argument, name, number, type and reference written outside a // comment is in the plan, with the value written, or equivalently spelled (letter case of types, leading zeros, digits of a float beyond its precision, optional anchors and signatures, 60 seconds for the next minute); a number the plan cannot hold as written is refused, and so is anything that, once read, would have no text form, except for references to columns that do not exist. The command accepts no file that the library refuses.",
  ["fault_sequences", "inputs"],
  "for every stored plan and every storage fault applied to it",
  "Tests use a few hand-written malformed inputs; what a reader silently skips is not tested at all.",
  ["src/parser/", "src/json.rs", CLI],
  [("complete match of every line", "src/parser/common.rs: RuleIter"), ("JSON and YAML readers", "src/json.rs: parse_json, src/cli.rs: Format::read_plan"), ("literals that do not fit", "src/parser/expressions.rs")],
  observe=["plan read or error"])
p("C17", "A damaged text plan is refused at the damaged line",
  "When a storage fault makes a line of a readable text plan unreadable (its tail is lost so that a bracket or string stays open, foreign bytes replace it, a foreign line is put in, or it refers to an anchor that is declared nowhere), reading the plan fails and the error names that line by its number in the file as stored, counting from 1, and quotes what stands there - whatever the section, depth, line ends, blank lines and length of the file. If several lines are unreadable, it names one of them; of a table written over several lines it may name the first. Any other damage to a text plan, if it is refused, is refused with the number and the content of a line there is. The command reports the same on its error stream, exits nonzero and writes no plan.",
  ["fault_sequences", "inputs"],
  "for every stored text plan, layout and place and kind of damage",
  "Tests check the line number of a few hand-written errors in short texts.",
  ["src/parser/structural.rs", "src/parser/chunks.rs", "src/parser/errors.rs", CLI],
  [("line numbers of chunks", "src/parser/chunks.rs: ChunkCursor"), ("error context", "src/parser/errors.rs: ParseContext, src/parser/structural.rs: parse_line")],
  observe=["error message", "exit status", "standard output"])
# Not applicable to deterministic simulation: pure functions of the input.
p("N01", "Text round trip as a pure function",
  "For every plan the text format can express and every parseable option set, parsing the formatted text yields an equal plan.",
  ["inputs"], "for every expressible plan",
  "Tests sample a few dozen plans.", ["src/parser/", "src/textify/"], [("grammar and formatter symmetry", "src/parser/expression_grammar.pest; src/textify/")])
p("N02", "The parser accepts exactly the documented grammar",
  "A text is accepted if and only if it follows the documented grammar and its references resolve.",
  ["inputs"], "for every text", "Tests sample texts.", ["GRAMMAR.md", "src/parser/expression_grammar.pest"], [("grammar", "src/parser/expression_grammar.pest")])
p("N03", "Parse errors point at the offending position within the line",
  "Every parse error names the column at which the line stops being acceptable, and what was expected there.",
  ["inputs"], "for every rejected text", "Tests check a few messages.", ["src/parser/errors.rs", "src/parser/common.rs"], [("error context", "src/parser/errors.rs: ParseContext")])
p("N04", "Displayed output columns match the relation's semantics",
  "The columns shown for each relation are those the relation outputs under its output mapping, for every relation kind and join type.",
  ["inputs"], "for every relation tree", "Tests sample trees.", ["src/textify/rels.rs"], [("emitted columns", "src/textify/rels.rs")])
p("N05", "Displayed function and type references are unambiguous",
  "A displayed function or type reference carries a signature or anchor whenever the bare name would be ambiguous, and resolves to the referenced declaration only.",
  ["inputs"], "for every set of declarations and references", "Tests sample name clashes.", ["src/extensions/simple.rs"], [("uniqueness flags", "src/extensions/simple.rs: lookup_function, resolve_function")])
p("N06", "Literal values convert exactly",
  "Dates, times, timestamps, intervals and numbers are displayed and parsed without changing their value, or rejected.",
  ["inputs"], "for every literal value and type", "Tests sample values.", ["src/parser/expressions.rs", "src/textify/expressions.rs", "src/precision.rs"], [("precision conversion", "src/precision.rs")])
p("N07", "Unsupported plan features are marked and reported",
  "Every part of a plan that the text format cannot express is shown as a failure mark and reported as a problem, never dropped silently.",
  ["inputs"], "for every plan message", "Tests sample unsupported features.", ["src/textify/"], [("failure tokens", "src/textify/foundation.rs")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False) + "\n")
