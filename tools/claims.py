L = ("Model: exhaustive for 2 threads, 2 configurations, every interleaving of calls, filter changes, assignments and scopes, failures at every "
     "place (thorough: 2 operations each, 3 configurations). Code: generated programs with recording doubles under random and "
     "preemption-bounded systematic schedules, every distinct execution validated. Trusts: sequentially consistent interleaving at pthread "
     "and std::atomic operations and inside the doubles.")
for i in ("P01", "P02", "P03", "P04"):
    claim(i, CONC, L)
claim("P25", TR, L)
L = ("Model: FileSink, exhaustive for one sink (3 lines, 2 changes of the file system) and two sinks (3 lines, 1 change), 2 threads; thorough "
     "deeper. Code: generated programs of real sinks on a real scratch directory (renames, links, directories, dangling links, sockets, lost "
     "descriptors, foreign devices by interposed stat), concurrent phases under the controlled scheduler with preemption inside stream and system "
     "calls, a quarter with the happens-before monitor; every distinct execution validated. File system changes happen between emits.")
for i in ("P09", "P11", "P12"):
    claim(i, CONC, L)
claim("P10", CONC, L + " Spellings and large thresholds: about 250 configurations and builders against exact arithmetic in TLA+, bytes handed "
      "to the system counted at write/writev.")

L = ("Code: generated records and configurations through the real formatters built with the address sanitizer; every "
     "output is decided by the specification (an independent definition of the text, not a copy of the code's algorithm). ")
claim("P13", TR, L + "Patterns of all placeholder kinds with specifications, 2500 (thorough 100000) pattern and record lists; a part is formatted by "
      "several threads at once. Not covered: specifications whose result the bundled cppformat leaves odd (padding of nan/inf and of left-aligned doubles).")
claim("P14", TR, L + "About 22500 (thorough 900000) patterns made from the grammar, mutated or built of its letters. Defaults that may or may not read as "
      "numbers are accepted either way.")
claim("P15", TR, L + "Read back with a JSON reader written in TLA+; routes, renames, unique, mutators, every byte; doubles of at most 15 digits.")
claim("P16", CONC, L + "Model: escaping of all keys and values up to length 2/1 (thorough 3/2) over the special bytes is invertible and keeps the line whole.")
claim("P24", CONC, L + "Model: the calendar of MCCalendar agrees with day by day counting over whole leap cycles. Instants 1970-2106 and far beyond, about "
      "thirty time zones against their own transition tables, every conversion of strftime in the C locale.")

claim("P21", TR, "Code: generated JSON documents of all shapes, numbers of all magnitudes, keys, paths and defaults, malformed and truncated documents, "
      "read through the real configuration nodes (address sanitizer); every answer decided by the specification, 3000 (thorough 60000) documents.")
claim("P22", CONC, "Model: owners and views over small contents, all operations to depth 4 (thorough 6): a copy tells the same as its origin, equality is an "
      "equivalence, nothing changes an independent copy. Code: 5000 (thorough 100000) programs of construction from every C++ type, copies, moves, "
      "assignments, swaps, growing vectors, visits and comparisons, under the address sanitizer.")
claim("P23", TR, "Code: generated patterns (indexes, specifications, widths and precisions taken from arguments, malformed ones) and arguments of seventeen C++ "
      "types through the real facade over roots and wrappers, and 31 compile-time patterns; 3000 (thorough 60000) programs; every message, attribute, "
      "error and number of conversions decided by the specification.")

claim("P17", CONC, "Model: exhaustive for two sinks on one or two streams, two threads, every interleaving of calls and failures of the stream or the "
      "message's color function. Code: generated programs of console sinks (both streams, string streams and a real pseudo terminal, filters, colour "
      "tables, failing stream buffers, shared formatting flags) under random and preemption-bounded systematic schedules, a part with the "
      "happens-before monitor; every distinct execution validated.")
claim("P18", CONC, "Model: exhaustive for two threads, hosts of two addresses and a bounded number of failures anywhere. Code: generated programs against an "
      "interposed socket layer that fails, splits and delays calls at chosen places and against real loopback peers that close or reset; every distinct "
      "execution validated. A record accepted by the kernel for a connection the peer has closed counts as sent.")
claim("P19", CONC, "Model: lives of two syslog sinks and emits in every order. Code: UDP to real loopback sockets (payloads of every size up to the "
      "datagram limit, IPv4 and IPv6, failing sends), syslog against an interposed openlog/syslog/closelog that keeps the process-wide state; every "
      "distinct execution validated, a part under the address sanitizer and the happens-before monitor. Trusts: the system log itself.")

claim("P20", TR, "Code: 1500 (thorough 30000) sessions of registries (empty, with the essential types, with the user's own, replaced, destroyed early), builders over generated, mutilated and mistyped "
      "JSON documents, several loggers alive together, records logged, full asynchronous queues and destruction; every answer (built, or refused naming one of the document's errors) and every byte at files, "
      "streams, sockets and the system log decided by the specification; formatters compared with ones built by hand. Address sanitizer. Unknown members are ignored, a missing handler type is 'blocking'.")
claim("P26", CONC, "Model: exhaustive for two (thorough: three) threads, blocks of two to four pieces, a stream that breaks anywhere. Code: generated programs of development handlers made by builder, factory "
      "and registry, on a recording buffer that is or is not a terminal and may break, records with attributes of every kind, under random and preemption-bounded systematic schedules, a part with the "
      "happens-before monitor; every distinct execution validated byte by byte. Output of other writers to standard output (the console sink has its own lock) may come between blocks' pieces.")
claim("P27", TR, "Model: every history of three operations over three views (thorough: four over two) of buffers of up to two bytes; invariants Within, Guarded, Order, Cut; two mistakes found. "
      "Code: 6000 (thorough 100000) generated programs of constructions, copies, parts, changes of the owner, reads and comparisons on exactly sized buffers under the address sanitizer, every answer decided "
      "by the specification. The order of bytes above 127 and where an empty view points are left open; std::hash does not compile with libstdc++.")
