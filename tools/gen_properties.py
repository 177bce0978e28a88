#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("P01", "Every passing record reaches every handler and sink exactly once, in order",
  "For every log call whose record the logger's filter accepts, each handler receives that record exactly once, in the order handlers were added, and each blocking handler formats it once and gives each of its sinks, in order, the same record and formatted text; a record the filter rejects reaches no handler and its lazy message is never produced. The record carries the call's severity, pattern, formatted message, attributes, thread and a timestamp taken during the call, and a lazy message supplier runs exactly once per accepted record. The filter sees the record before it is activated, with all its attributes.",
  ["programs", "inputs"], "every configuration of handlers, sinks, filters and every sequence of log calls with any severity, message and attributes",
  "Tests check one or two fixed handlers with mocks and single calls; they do not relate arbitrary call sequences to the deliveries made by arbitrary handler/sink trees.",
  ["src/root.cpp", "src/record.cpp", "src/handler/blocking.cpp", "src/filter/severity.cpp"],
  [("consume(): filter, supplier, activate, handler loop", "src/root.cpp"), ("format once then emit to every sink", "src/handler/blocking.cpp")],
  [("handlers", "the ordered set of handlers of the logger", "src/root.cpp"), ("record", "what is delivered", "src/record.cpp")],
  ["handler_t::handle", "sink_t::emit", "filter and supplier callbacks"])
p("P02", "A failing handler, formatter or sink never disturbs the caller or other handlers",
  "Whatever exceptions formatters or sinks of a handler throw while a record is handled, the log call returns normally, every other handler of the logger still receives that record, later log calls work as before, and one diagnostic line naming the error (or saying it is unknown) is printed to standard output per failed handler. Exceptions raised by the user's own filter or lazy message supplier do reach the caller, and then no handler is called.",
  ["fault_sequences", "programs"], "every placement of exceptions (standard or foreign types) at every handler/formatter/sink/filter/supplier of every call of every program",
  "Tests inject one std::exception in one handler; they do not enumerate which of several handlers/sinks throws, what is thrown, and what later calls observe.",
  ["src/root.cpp", "src/handler/blocking.cpp"],
  [("per-handler try/catch", "src/root.cpp")], [], ["standard output", "handler_t::handle", "the return of logger_t::log"])
p("P03", "Scoped and wrapper attributes reach exactly the right records in the right order",
  "A record carries the attributes given in the call, then those of each wrapper around the logger (outermost first), then those of each scope alive for that logger on the calling thread from the most recently opened to the oldest, and nothing else. Scopes opened on one thread are never visible in records of another thread, or of another logger, and closing scopes in any nesting restores exactly the outer ones. Moving a logger, or move-assigning it, carries the scopes alive on the calling thread to the new object, and closing them afterwards leaves the new object without them.",
  ["programs", "schedules"], "every program of nested scopes, wrappers (also copied or moved wrappers), threads, loggers and logger moves",
  "Tests use one or two scopes on one thread and one hand-made move; the interaction of nested scopes, wrappers of wrappers, several loggers, several threads and moves is a history property.",
  ["src/root.cpp", "src/scope/watcher.cpp", "src/scope/holder.cpp", "src/wrapper.cpp"],
  [("thread specific watcher chain", "src/root.cpp"), ("watcher_t::collect/rebind", "src/scope/watcher.cpp"), ("attribute pack push", "src/wrapper.cpp")],
  [("watcher chain", "stack of open scopes per thread and logger", "src/scope/watcher.cpp")], ["record_t::attributes in a handler"])
p("P04", "Reconfiguring a live logger is atomic and loses nothing",
  "While threads log through a root logger, other threads may replace its filter or move-assign a new logger into it: every log call is processed entirely by one configuration (handlers and filter) that was installed at some moment during the call, every accepted record is delivered exactly once to that configuration's handlers, and no call deadlocks or fails. Once a replacement has returned, every call that starts afterwards uses it (a filter set survives until the next filter set or assignment; an assigned configuration survives until the next assignment), and a replaced configuration is destroyed only when no call uses it any more.",
  ["schedules", "programs"], "every interleaving of log calls, filter replacements and move assignments by any number of threads",
  "The thread-safety programs only check for crashes under whatever schedules the OS happens to produce and never check which configuration processed a record.",
  ["src/root.cpp", "src/spinlock.linux.hpp"],
  [("sync_t::load/store under spinlock", "src/root.cpp"), ("inner_t::apply copies the filter under a lock", "src/root.cpp")],
  [("inner", "current configuration", "src/root.cpp"), ("filter", "filter of a configuration", "src/root.cpp")], ["filter callback", "handler_t::handle", "handler destructor"])
p("P05", "The asynchronous sink delivers what it accepted: once, in order, intact",
  "Every record the asynchronous sink accepts is passed to the wrapped sink exactly once, from a single consumer at a time, and records accepted one after the other (in particular those of one thread) arrive in that order. What arrives is the record as it was at the call - message, formatted message, formatted text, severity, timestamp, thread and all attributes in order, including lazily evaluated ones and empty, short, long or NUL-containing strings - no matter what the caller does with its buffers after the call returns. The wrapped sink is never given anything that was not accepted.",
  ["schedules", "inputs"], "every number of producers, queue capacity, record content and interleaving of producers with the consumer",
  "Tests push a single record from a single thread through a mock, under one schedule.",
  ["src/sink/asynchronous.p.cpp", "src/sink/asynchronous.hpp", "src/recordbuf.hpp"],
  [("bounded MPSC queue of owned records", "src/sink/asynchronous.hpp"), ("recordbuf_t owning copies", "src/recordbuf.hpp")],
  [("queue", "records accepted and not yet written", "src/sink/asynchronous.hpp")], ["sink_t::emit of the wrapped sink"])
p("P06", "Destroying the asynchronous sink writes everything accepted, then stops",
  "When the asynchronous sink is destroyed, every record accepted before destruction started is passed to the wrapped sink before the destructor returns, the destructor always returns (provided the wrapped sink's calls return), and afterwards the wrapped sink is never used again and has been destroyed. Records are also eventually written while the sink stays alive, without needing further calls.",
  ["schedules"], "every interleaving of accepting calls, the consumer and the destructor, at every fill level of the queue",
  "The window between the consumer seeing an empty queue and seeing the stop flag is a few instructions wide and no test produces it.",
  ["src/sink/asynchronous.p.cpp"],
  [("stop flag and join", "src/sink/asynchronous.p.cpp")],
  [("stopped", "destruction has started", "src/sink/asynchronous.hpp")], ["sink_t::emit and destructor of the wrapped sink"])
p("P07", "Asynchronous overflow follows the chosen policy within the stated capacity",
  "The asynchronous queue holds exactly two to the power of the configured factor (2 to 20; anything else is refused with an invalid-argument error) records: calls never block or lose records while fewer are pending. When the queue is full, with the drop policy the call returns promptly without delivering that record and without affecting others, and with the wait policy the call blocks until there is room and then delivers, losing nothing; the policy is the one the user chose by constructor, builder or configuration (wait by default; unknown names are refused).",
  ["schedules", "configurations"], "every factor, policy, way of constructing the sink, fill level and interleaving",
  "Tests only construct the sink and never fill the queue or observe a policy in action.",
  ["src/sink/asynchronous.p.cpp", "src/sink/asynchronous.cpp"],
  [("overflow policies", "src/sink/asynchronous.p.cpp"), ("builder and factory", "src/sink/asynchronous.cpp")],
  [("queue", "bounded buffer", "src/sink/asynchronous.hpp"), ("overflow_policy", "drop or wait", "src/sink/asynchronous.hpp")], ["return of emit", "sink_t::emit of the wrapped sink"])
p("P08", "Errors of the wrapped sink stay hidden from the application and are survived",
  "An exception thrown by the sink wrapped in an asynchronous sink is hidden from the application: it terminates neither the process nor the background writer and reaches no log call. The failing record is not written again, every other accepted record is still written exactly once and in order, blocked producers are still released, and destruction still completes.",
  ["fault_sequences", "schedules"], "every set of failing writes and every interleaving",
  "No test makes the wrapped sink throw (the process would have terminated).",
  ["src/sink/asynchronous.p.cpp", "include/blackhole/sink/asynchronous.hpp"],
  [("try/catch around the wrapped sink's emit", "src/sink/asynchronous.p.cpp")], [], ["process exit status", "sink_t::emit of the wrapped sink"])
p("P09", "The file sink appends every message as one intact line",
  "Each emit appends the formatted message followed by one newline to the file at the configured path, after whatever the file already contained, byte for byte, in the order of the calls; concurrent emits on one sink from any threads never interleave within a line or lose one. Existing content is never truncated or overwritten, also when several sinks or processes append to the same path or the sink is reopened later, and everything emitted is in the file once the sink is destroyed.",
  ["schedules", "histories", "inputs"], "every interleaving of emits, every message content (empty, binary, with newlines, large) and every history of sinks opened on the same path",
  "Tests use mocked streams and one message; nothing checks the bytes in the file after concurrent emits or reopenings.",
  ["src/sink/file.cpp", "src/sink/file.hpp"],
  [("mutex around the write", "src/sink/file.hpp"), ("append mode", "src/sink/file.cpp")],
  [("file content", "bytes at the path", "file system")], ["the file"])
p("P10", "The file sink flushes exactly at its configured thresholds",
  "With a count policy of N the data is flushed to the file exactly after every N-th record since the file was opened (N=1: after every record), with a size policy of B bytes exactly when the bytes written (newlines included) since the count was last reduced reach B, the count then continuing modulo B, and with a zero or absent threshold only when the sink decides or is destroyed. Thresholds may be configured as numbers (records) or as size strings with units B, kB, MB, GB (powers of 1000) and KiB, MiB, GiB (powers of 1024); a plain digit string meaning bytes; any other string, or one that means 2^64 bytes or more, is refused with an invalid-argument error.",
  ["histories", "inputs", "configurations"], "every sequence of message sizes, every threshold and every unit string",
  "Tests check a handful of counters on flushers in isolation and a few unit strings; the relation of thresholds, wrap-around and arbitrary size sequences to what is visible in the file is never checked.",
  ["src/sink/file/flusher/bytecount.hpp", "src/sink/file/flusher/repeat.hpp", "src/sink/file.cpp"],
  [("flusher counters", "src/sink/file/flusher/*.hpp"), ("parse_dunit", "src/sink/file.cpp")],
  [("counter", "records or bytes since the last flush", "src/sink/file/flusher")], ["stream flush", "the file before destruction"])
p("P11", "Log rotation by an external tool is followed without losing records",
  "With the stat rotation mode, whenever the file at the configured path has been moved away, deleted or replaced by another file between two emits, the next emit goes to the file now at that path (creating it if it is missing), records already written stay in the old file, and no record is lost, duplicated or split; while the path still denotes the same file it is not reopened. Without rotation the sink keeps writing to the file it opened whatever happens to the path.",
  ["histories"], "every history of emits interleaved with renames, deletions, replacements and copies of the file",
  "Tests use mocked rotation objects and never rename a real file between emits.",
  ["src/sink/file/rotate/stat.hpp", "src/sink/file.cpp"],
  [("inode comparison", "src/sink/file/rotate/stat.hpp"), ("reopen", "src/sink/file.cpp")],
  [("inode", "identity of the opened file", "src/sink/file/rotate/stat.hpp")], ["all files"])
p("P12", "File open failures are reported and recovered from",
  "Creating a file sink touches nothing; the file is opened by the first emit. If it cannot be opened, that emit throws a system error carrying the operating system's reason and writes nothing, and each later emit tries again, so that the first emit after the obstacle is gone succeeds with its own record and all later ones follow; when a rotation's reopen fails the same holds.",
  ["fault_sequences", "histories"], "every sequence of emits interleaved with making the path unopenable (missing directory, directory in place, dangling link, rotation) and openable again",
  "Tests make a mocked stream fail once; recovery over histories is not covered.",
  ["src/sink/file.cpp"],
  [("lazy open in emit", "src/sink/file.cpp")], [("file", "opened file or none", "src/sink/file.hpp")], ["emit result", "the file"])
p("P13", "The string formatter renders any record exactly as its pattern says",
  "For every valid pattern, options and record the output is the concatenation of the literal text (with {{ and }} as single braces) and of each placeholder's rendering: message, severity (as a number, or through the user's mapping function if one is given), timestamp, process, thread, named attributes with their python-like format specification applied to their typed value, and the leftover placeholder {...} listing every attribute in the record's order (most recently attached lists first) with its configured item pattern and separator. A missing attribute renders the configured default of an optional placeholder, or else the format call fails with an exception and nothing wrong is printed; attributes' contents are always treated as data and printed whole.",
  ["inputs"], "every valid pattern, attribute set (types, names, values) and record",
  "Tests check a few dozen fixed patterns with one attribute each; combinations of literals, escapes, specs, multiple leftover placeholders and duplicate names are an infinite input space.",
  ["src/formatter/string.cpp", "src/formatter/string/token.cpp"],
  [("token visitors", "src/formatter/string.cpp")], [], ["formatter_t::format output"])
p("P14", "Pattern compilation accepts exactly the documented language",
  "Every pattern of the documented syntax is accepted, and every other string is refused with a standard exception when the formatter is constructed (unmatched or stray braces, bad placeholder names, malformed specifications of reserved placeholders) or, where only the type of the attribute decides whether its specification makes sense, when a record is formatted; never with a crash, a hang or a silent misinterpretation. Reserved placeholder names (message, severity, timestamp, process, thread, ...) have their special meaning in every position, and text outside placeholders is preserved byte for byte.",
  ["inputs"], "every string as pattern",
  "Tests list about sixty patterns; the accepted language is infinite.",
  ["src/formatter/string/parser.cpp", "src/formatter/string/grammar.cpp", "src/formatter/string/grammar.inl.hpp"],
  [("state machine parser", "src/formatter/string/parser.cpp"), ("placeholder grammar", "src/formatter/string/grammar.cpp")], [], ["constructor result"])
p("P15", "The JSON formatter emits one valid JSON tree with every field in its place",
  "For every record and configuration the JSON formatter's output is one syntactically valid JSON object (plus a newline when configured) in which message, severity, timestamp, process, lwp, thread and every attribute appear with their own name - or the configured replacement name - under the configured route (root, a nested path, or the default for unlisted fields), with the value's type and content preserved (strings escaped, integers and finite floating point numbers as numbers, booleans as booleans, null and non-finite numbers as null). Severity mapping and timestamp formatting are applied as configured, duplicate attributes are kept unless unique filtering is enabled, in which case the first attribute of each name in the record's order survives, and nothing else is added.",
  ["inputs", "configurations"], "every record, attribute set, routing table, renaming table, uniqueness, newline and mutate option",
  "Tests check about twenty fixed combinations by exact string; arbitrary combination of routing and renaming and arbitrary bytes in strings are not covered.",
  ["src/formatter/json.cpp"],
  [("routing visitor", "src/formatter/json.cpp")], [], ["formatter_t::format output"])
p("P16", "The TSKV formatter emits exactly one parseable line per record",
  "For every record and configuration the TSKV formatter's output starts with its literal header, followed by tab separated key=value fields: the configured constants, timestamps, severity, process, thread, message and every attribute, under their configured (renamed) keys, and without removed ones. Tabs, newlines, backslashes, NUL and other control characters in keys and values, and = in keys, are escaped, so that splitting at unescaped tabs and at the first unescaped = and unescaping gives back exactly the keys and values that were logged.",
  ["inputs", "configurations"], "every record, attribute set and configuration of create/remove/rename/timestamp rules",
  "Tests check some fixed lines; escaping of all byte values and interaction of rules are not covered.",
  ["src/formatter/tskv.cpp"],
  [("escape", "src/formatter/tskv.cpp")], [], ["formatter_t::format output"])
p("P17", "The console sink writes whole lines, filtered and coloured as configured",
  "Every record the console sink's filter does not deny is written to the chosen stream (standard output or standard error) as the formatted message followed by a newline and is flushed by the time the call returns; a denied record writes nothing. Lines from any number of console sinks and threads never interleave. Colour escape sequences surround a message only when the stream is a terminal and the configured mapping gives its record a colour, and then the terminal's colour is always reset at the end of the message.",
  ["schedules", "configurations", "inputs"], "every interleaving of emits on any number of console sinks sharing a stream, every filter, colour mapping and message",
  "Tests write one message to a string stream; they never use two threads, two sinks or a terminal.",
  ["src/sink/console.cpp", "src/termcolor.cpp"],
  [("global output mutex", "src/sink/console.cpp"), ("tty test", "src/sink/console.cpp")], [], ["the stream / terminal"])
p("P18", "The TCP sink delivers each message once, in order, and reconnects after failure",
  "The TCP sink connects when the first record is emitted (never at construction), trying every address of the host in turn, and sends exactly the formatted bytes of each record, once, contiguously and in order over one connection that later emits reuse, also for messages too large for one send and with concurrent emitters. If connecting or sending fails, that emit throws a system error, and the next emit makes a fresh connection and delivers its own record completely; bytes of different records never mix.",
  ["fault_sequences", "schedules", "histories"], "every sequence of emits, server disappearances, refused connections, resets and partial writes, and every interleaving of emitters",
  "Tests never connect to a server; they only check the constructor and factory values.",
  ["src/sink/socket/tcp.cpp"],
  [("lazy connect under a mutex", "src/sink/socket/tcp.cpp"), ("reset on error", "src/sink/socket/tcp.cpp")],
  [("socket", "connected or none", "src/sink/socket/tcp.hpp")], ["the peer's byte streams"])
p("P19", "The UDP and syslog sinks turn each record into exactly one intact message",
  "Each emit on a UDP sink sends one datagram to the configured host and port that contains exactly the formatted bytes. Each emit on a syslog sink makes one syslog entry containing the whole formatted message as plain text (never interpreted as a format string) with the priority configured for the record's severity, or the error priority when the severity has none configured, and the configured identity, option and facility are in force while the sink lives.",
  ["inputs", "histories"], "every message, severity, priority table and sequence of emits and sink lifetimes",
  "Tests check constructor arguments and one mocked call.",
  ["src/sink/socket/udp.cpp", "src/sink/syslog.cpp"],
  [("send_to", "src/sink/socket/udp.cpp"), ("priority table", "src/sink/syslog.cpp")], [], ["the receiving socket", "calls of openlog/syslog/closelog"])
p("P20", "A configuration builds exactly the logger it describes, or fails clearly",
  "Building a logger from a JSON configuration gives a logger with exactly the described handlers, sinks and formatters with their options, in the described order, behaving the same as one built by hand with the same parts. A configuration that lacks a required element, names an unregistered type, or has a value of the wrong kind or out of range is refused with a standard exception (out-of-range error naming the missing registration, invalid-argument error, or type mismatch), never a crash and never a silently different logger; user registered types take part like built-in ones and building one logger never affects another.",
  ["configurations"], "every configuration tree over the built-in types and options and every set of registered types",
  "Tests check around ten well-formed configurations and a few mocked nodes.",
  ["src/registry.cpp", "src/handler/blocking.cpp", "src/sink/*.cpp", "src/formatter/*.cpp", "include/blackhole/registry.hpp"],
  [("registry", "src/registry.cpp"), ("factories", "src/**")], [], ["registry builder", "resulting logger's output"])
p("P21", "JSON configuration access is faithful and reports type errors with their path",
  "Reading a JSON configuration returns for every path exactly the value in the document: scalars through the accessor of their own kind (booleans, signed and unsigned integers in range, numbers, strings including all escapes), array elements and object members completely and in document order, and for missing members and indices past the end the empty option. An accessor of another kind throws a type mismatch naming the exact path of the node (/ for the root) and the expected and actual kinds, on a null value as on any other, malformed documents are refused with an error giving the offset and cause, and reading never changes anything.",
  ["inputs"], "every JSON document, path and accessor",
  "Tests read a few members of fixed documents.",
  ["src/config/json.hpp", "src/config/json.cpp", "src/config/option.cpp"],
  [("json_t node", "src/config/json.hpp")], [], ["config::node_t accessors"])
p("P22", "Attribute values keep their type and content through every conversion",
  "An attribute value constructed from any supported type holds exactly that value, reports it through the accessor of exactly that kind and refuses every other kind with a bad-cast error, compares equal exactly to values of the same kind and content, and visits the visitor's overload for its kind. Views of owned values, owned copies and moved-to values denote the same value, and formatting a view by its writer gives the value's textual representation.",
  ["inputs", "programs"], "every value of every kind (limits, empty and binary strings, user functions) and every sequence of copies, moves, assignments and views",
  "Tests check one sample per type.",
  ["src/attribute.cpp", "include/blackhole/attribute.hpp", "src/attribute.hpp"],
  [("variant", "src/attribute.hpp")], [], ["attribute accessors"])
p("P23", "Facade logging formats messages exactly as the format string and arguments say",
  "Logging through the facade gives handlers, as formatted message, the pattern with its replacement fields substituted by the arguments in python-like syntax - with identical results for run-time formatting, for compile-time literals and for attribute-carrying variants - and, as message, the unformatted pattern where it is given at run time; formatting happens only for records the filter accepts and at most once. Attributes passed along the call reach the record in the order given, and a malformed pattern or an argument index without argument raises a format error instead of wrong output; patterns given as non-terminated views are used only up to their length.",
  ["inputs"], "every pattern, argument list and attribute list",
  "Tests use a few patterns with a mocked logger.",
  ["include/blackhole/extensions/facade.inl.hpp", "include/blackhole/extensions/metaformat.hpp", "src/format.cpp"],
  [("lazy supplier", "include/blackhole/extensions/facade.inl.hpp")], [], ["record in a handler"])
p("P24", "Timestamps are rendered as the right calendar time for every instant",
  "For every instant from 1970 on and every strftime-like pattern the rendered timestamp denotes exactly that instant: the UTC form gives the proleptic Gregorian UTC calendar fields, the local form the fields of the process's local time zone including daylight saving and UTC offset, the numeric form the whole number of microseconds since the epoch, and the microsecond extension always exactly six digits of the same instant. Every documented conversion gives what strftime gives for the same broken-down time, %% is a literal percent sign wherever it stands, and literal text is preserved.",
  ["inputs"], "every instant representable by the clock, every pattern and time zone",
  "Tests check around forty fixed conversions at one or two instants.",
  ["src/datetime/generator.linux.cpp", "src/datetime/generator.other.cpp", "src/util/time.hpp", "src/formatter/string.cpp"],
  [("gmtime/localtime replacement", "src/util/time.hpp"), ("generator", "src/datetime/generator.linux.cpp")], [], ["formatter_t::format output"])
p("P25", "Severity thresholds and sink filters pass exactly the records they should",
  "A severity filter with threshold T lets through exactly the records with severity at least T (as signed integers), whether it is created directly or from a configuration, and a logger filter is asked exactly once per log call with the record's severity, message and all attributes. A filter's decision is applied to that record only: a denied record is written nowhere and leaves no trace in later output.",
  ["inputs", "programs"], "every severity, threshold and sequence of records",
  "Tests check three severities around one threshold.",
  ["src/filter/severity.cpp", "src/sink/console.cpp", "src/root.cpp"],
  [("severity filter", "src/filter/severity.cpp")], [], ["filter_t::filter", "sink output"])

p("P26", "The development handler writes every record as one unbroken, flushed block",
  "A development handler turns every record it is given into one block on the standard output: a line with the record's timestamp in UTC with microseconds, the letter of its severity (D, I, W, E for 0 to 3, T for any other), the thread and process identifiers and the formatted message, then a line for each attribute of every list in order with its name padded or cut to 16 characters and its value, and a newline. Terminal colour sequences surround the parts exactly when standard output is a terminal and do not appear otherwise. Blocks of any number of threads and development handlers never mix, each has been flushed when the call returns, and a failing stream fails that call without disturbing later ones.",
  ["inputs", "schedules", "fault_sequences"], "every record, interleaving of threads and handlers, and stream failure",
  "The repository has no test of this handler; interleavings and failing streams are outside unit tests anyway.",
  ["src/handler/dev.cpp", "src/termcolor.cpp"],
  [("the handler", "src/handler/dev.cpp")], [], ["std::cout", "handler_t::handle"])

p("P27", "String views denote exactly the bytes they were made from and stay within them",
  "A string view made from a literal, a pointer and a size, or a string refers to exactly those bytes, NULs included, without owning them: it shows what its owner changes. A part [pos, pos + count) is the bytes from pos to the smaller of the asked and the available end, for counts up to the largest value, and asking for a position beyond the end, like reading one, throws out_of_range and changes nothing. Views, copies and parts compare equal exactly when their bytes are equal (also against strings), are strictly totally ordered with every proper prefix before the longer view, and are copied to strings and written to streams completely.",
  ["inputs", "programs"], "every content, position, count and sequence of operations on views",
  "Tests check a handful of constructions and one comparison; positions, counts and contents form an unbounded space.",
  ["include/blackhole/stdext/string_view.hpp"],
  [("string view", "include/blackhole/stdext/string_view.hpp")], [], ["string_view operations"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
