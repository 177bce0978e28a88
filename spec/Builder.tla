------------------------------ MODULE Builder ------------------------------
(* From a configuration to loggers: registries of types, what a configuration *)
(* describes or which of its elements have to be refused, and what the built  *)
(* loggers do with records, down to the bytes at files, streams and peers.    *)
(*                                                                            *)
(* A description is one of                                                     *)
(*   handlers    [k |-> "blocking", f, sinks]  [k |-> "uh", id]                *)
(*   formatters  [k |-> "string" | "json" | "tskv" | "uf", ...]                *)
(*   sinks       [k |-> "null" | "rec" | "console" | "file" | "tcp" | "udp" |  *)
(*                      "syslog" | "async", ...]                               *)
(* Types beginning with u and rec are the user's.                              *)
EXTENDS ConfigNode

(* ---- results: a value, or the set of all errors, any of which may be told --------- *)
Fine(v) == [err |-> {}, v |-> v]
Refuse(S) == [err |-> S, v |-> <<>>]
Invalid == [st |-> "invalid_argument", has |-> <<>>]
Unknown(type) == [st |-> "out_of_range", has |-> <<type>>]
Mismatch(x, as) == [st |-> "mismatch", has |-> <<IF x.c = <<>> THEN Slash ELSE x.c, B(Expected(as)), B(Actual(x.v))>>]
Contains(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : StartsAt(s, i, p)
Tells(e, st, what) == e.st = st /\ \A i \in 1..Len(e.has) : Contains(what, e.has[i])

Get(x, k) == Step(x, [k |-> B(k)])
Elems(x) == [i \in 1..Len(x.v.v) |-> Step(x, [each |-> i - 1])]
Pairs(x) == [i \in 1..Len(x.v.v) |-> [k |-> x.v.v[i].k, x |-> Step(x, [map |-> i - 1])]]

(* An optional element of a kind. *)
Absent == [has |-> FALSE]
Present(v) == [has |-> TRUE, v |-> v]
Read(x, as) == IF ~x.ok THEN Fine(Absent) ELSE IF Fits(x.v, as) THEN Fine(Present(x.v)) ELSE Refuse({Mismatch(x, as)})
Need(x, as) == IF ~x.ok THEN Refuse({Invalid}) ELSE Read(x, as)
All(rs) == LET e == UNION {rs[i].err : i \in 1..Len(rs)} IN IF e = {} THEN Fine([i \in 1..Len(rs) |-> rs[i].v]) ELSE Refuse(e)
(* Elements and members are looked at only if there are some. *)
Each(x, F(_)) == IF ~x.ok THEN Fine(<<>>) ELSE IF x.v.t # "a" THEN Refuse({Mismatch(x, "each")})
                 ELSE LET xs == Elems(x) IN All([i \in 1..Len(xs) |-> F(xs[i])])
EachMap(x, F(_, _)) == IF ~x.ok THEN Fine(<<>>) ELSE IF x.v.t # "o" THEN Refuse({Mismatch(x, "each_map")})
                       ELSE LET ps == Pairs(x) IN All([i \in 1..Len(ps) |-> F(ps[i].k, ps[i].x)])
Str(x) == LET r == Read(x, "string") IN IF r.err # {} THEN r ELSE Fine(r.v.v.v)
StrOf(r) == r.v.v.v                                    \* of a present string
Size(r) == LET d == IntDigits(r.v.v) IN IF Len(d) > 9 THEN 1000000000 ELSE DigitsNat(d)
IntOf(v) == LET d == IntDigits(v) n == IF Len(d) > 9 THEN 1000000000 ELSE DigitsNat(d) IN IF v.neg THEN -n ELSE n
Flag(r) == r.v.has /\ r.v.v.v

(* ---- registries --------------------------------------------------------------------- *)
Type(cat, t) == [cat |-> cat, type |-> B(t), impl |-> t]
Essentials == << Type("filter", "severity"), Type("formatter", "json"), Type("formatter", "string"), Type("formatter", "tskv"),
                 Type("sink", "asynchronous"), Type("sink", "console"), Type("sink", "file"), Type("sink", "null"), Type("sink", "tcp"),
                 Type("sink", "udp"), Type("sink", "syslog"), Type("handler", "blocking") >>
(* The last registration of a type counts. *)
Which(reg, cat, type) == {i \in 1..Len(reg) : reg[i].cat = cat /\ reg[i].type = type /\ \A j \in (i + 1)..Len(reg) : reg[j].cat # cat \/ reg[j].type # type}
Impl(reg, cat, type) == LET S == Which(reg, cat, type) IN IF S = {} THEN "" ELSE reg[CHOOSE i \in S : TRUE].impl
(* The implementation of the type that a node names. *)
ImplOf(reg, cat, x, default) ==
  LET t == Read(Get(x, "type"), "string") IN
  IF t.err # {} THEN t
  ELSE IF ~t.v.has /\ default = <<>> THEN Refuse({Invalid})
  ELSE LET type == IF t.v.has THEN StrOf(t) ELSE default IN IF Impl(reg, cat, type) = "" THEN Refuse({Unknown(type)}) ELSE Fine(Impl(reg, cat, type))

(* ---- formatters ---------------------------------------------------------------------- *)
Both(a, b) == a.err \cup b.err
StringFormatter(x) ==
  LET p == Need(Get(x, "pattern"), "string")
      m == Each(Get(x, "sevmap"), Str)
  IN IF Both(p, m) # {} THEN Refuse(Both(p, m)) ELSE Fine([k |-> "string", pattern |-> StrOf(p), mapped |-> Get(x, "sevmap").ok, sevmap |-> m.v])
Route(k, x) ==
  IF x.v.t = "s" THEN Fine([op |-> "route", to |-> k, rest |-> TRUE, what |-> <<>>])
  ELSE LET r == Each(x, Str) IN IF r.err # {} THEN r ELSE Fine([op |-> "route", to |-> k, rest |-> FALSE, what |-> r.v])
Pair(op, k, x) == LET r == Str(x) IN IF r.err # {} THEN r ELSE Fine([op |-> op, k |-> k, v |-> r.v])
Rename(k, x) == Pair("rename", k, x)
Format(k, x) == Pair("format", k, x)
Create(k, x) == Pair("create", k, x)
Remove(x) == LET r == Str(x) IN IF r.err # {} THEN r ELSE Fine([op |-> "remove", k |-> r.v])
JsonMutate(k, x) ==
  IF k = B("timestamp") THEN Pair("timestamp", k, x)
  ELSE IF k = B("severity") THEN LET r == Each(x, Str) IN IF r.err # {} THEN r ELSE Fine([op |-> "severity", v |-> r.v])
  ELSE Refuse({Invalid})
JsonFormatter(x) ==
  LET u == Read(Get(x, "unique"), "bool")
      n == Read(Get(x, "newline"), "bool")
      parts == <<EachMap(Get(x, "mapping"), Rename), EachMap(Get(x, "formatting"), Format), EachMap(Get(x, "routing"), Route), EachMap(Get(x, "mutate"), JsonMutate)>>
      e == Both(u, n) \cup All(parts).err
  IN IF e # {} THEN Refuse(e)
     ELSE Fine([k |-> "json", unique |-> Flag(u), newline |-> Flag(n), ops |-> Cat([i \in 1..4 |-> parts[i].v])])
TskvMutate(k, x) ==
  LET s == Need(Get(x, "strftime"), "string")
      g == Read(Get(x, "gmtime"), "bool")
  IN IF s.err \cup g.err # {} THEN Refuse(s.err \cup g.err)
     ELSE Fine([op |-> "timestamp", k |-> k, v |-> StrOf(s), gm |-> IF g.v.has THEN g.v.v.v ELSE TRUE])
TskvFormatter(x) ==
  LET parts == <<EachMap(Get(x, "create"), Create), EachMap(Get(x, "rename"), Rename), Each(Get(x, "remove"), Remove), EachMap(Get(x, "mutate"), TskvMutate)>>
      e == All(parts).err
  IN IF e # {} THEN Refuse(e) ELSE Fine([k |-> "tskv", ops |-> Cat([i \in 1..4 |-> parts[i].v])])
UserFormatter(x) == LET t == Need(Get(x, "tag"), "string") IN IF t.err # {} THEN t ELSE Fine([k |-> "uf", tag |-> StrOf(t)])
Formatter(reg, x) ==
  IF ImplOf(reg, "formatter", x, <<>>).err # {} THEN ImplOf(reg, "formatter", x, <<>>)
  ELSE LET i == ImplOf(reg, "formatter", x, <<>>).v
       IN CASE i = "string" -> StringFormatter(x) [] i = "json" -> JsonFormatter(x) [] i = "tskv" -> TskvFormatter(x) [] i = "uf" -> UserFormatter(x)

(* ---- filters ---------------------------------------------------------------------------- *)
SInt(x) == LET r == Read(x, "sint") IN IF r.err # {} THEN r ELSE Fine(IntOf(r.v.v))
Filter(reg, x) ==
  LET i == ImplOf(reg, "filter", x, <<>>) IN
  IF i.err # {} THEN i
  ELSE IF i.v = "severity" THEN LET t == Need(Get(x, "threshold"), "sint") IN IF t.err # {} THEN t ELSE Fine([k |-> "severity", n |-> IntOf(t.v.v)])
  ELSE LET d == Each(Get(x, "deny"), SInt) IN IF d.err # {} THEN d ELSE Fine([k |-> "deny", deny |-> d.v])
Denies(f, sev) == IF f.k = "none" THEN FALSE ELSE IF f.k = "severity" THEN sev < f.n ELSE \E i \in 1..Len(f.deny) : f.deny[i] = sev

(* ---- sinks ------------------------------------------------------------------------------ *)
Units == << <<B("B"), 1, 0>>, <<B("kB"), 1000, 1>>, <<B("MB"), 1000, 2>>, <<B("GB"), 1000, 3>>, <<B("KiB"), 1024, 1>>, <<B("MiB"), 1024, 2>>, <<B("GiB"), 1024, 3>> >>
RECURSIVE Scale(_, _, _)
Scale(d, m, k) == IF k = 0 THEN d ELSE Scale(MulAdd(d, m, 0), m, k - 1)
Bytes(s) ==       \* a spelled amount of bytes
  LET e == FirstOut(s, 1, Digits10)
      d == StripZ(DigitsOf(SubSeq(s, 1, e - 1)))
      u == From(s, e)
      U == {i \in 1..Len(Units) : Units[i][1] = u}
      n == IF u = <<>> THEN d ELSE LET x == Units[CHOOSE i \in U : TRUE] IN StripZ(Scale(d, x[2], x[3]))
  IN IF e = 1 \/ (u # <<>> /\ U = {}) THEN Refuse({Invalid})
     ELSE IF ~Less(n, TwoTo64) THEN Refuse({Invalid}) ELSE Fine(IF Len(n) > 9 THEN 1000000000 ELSE DigitsNat(n))
Flush(x) ==
  IF ~x.ok THEN Fine([k |-> "none", n |-> 0])
  ELSE IF IsU(x.v) THEN LET n == Size(Read(x, "uint")) IN Fine([k |-> IF n = 0 THEN "none" ELSE "count", n |-> n])
  ELSE IF x.v.t = "s" THEN LET n == Bytes(x.v.v) IN IF n.err # {} THEN n ELSE Fine([k |-> IF n.v = 0 THEN "none" ELSE "bytes", n |-> n.v])
  ELSE Refuse({Invalid})
FileSink(x) ==
  LET p == Need(Get(x, "path"), "string")
      f == Flush(Get(x, "flush"))
      r == Get(x, "rotate")
      t == Read(Get(r, "type"), "string")
      e == Both(p, f) \cup (IF ~r.ok THEN {} ELSE IF t.err # {} THEN t.err ELSE IF ~t.v.has THEN {Invalid} ELSE IF StrOf(t) # B("stat") THEN {Invalid} ELSE {})
  IN IF e # {} THEN Refuse(e) ELSE Fine([k |-> "file", path |-> StrOf(p), flush |-> f.v, stat |-> r.ok])
(* The hosts there are; datagrams need theirs at once. *)
Hosts == {B("127.0.0.1"), B("127.0.0.2"), B("::1")}
Socket(k, x) ==
  LET h == Need(Get(x, "host"), "string")
      p == Need(Get(x, "port"), "uint")
      e == Both(h, p) \cup (IF p.err # {} THEN {} ELSE IF Size(p) > 65535 THEN {Invalid} ELSE {})
           \cup (IF k = "udp" /\ h.err = {} /\ StrOf(h) \notin Hosts THEN {[st |-> "system_error", has |-> <<>>]} ELSE {})
  IN IF e # {} THEN Refuse(e) ELSE Fine([k |-> k, host |-> StrOf(h), port |-> Size(p)])
(* What fits an int is meant to be a priority. *)
Priority(x) ==
  LET r == Read(x, "sint") IN
  IF r.err # {} THEN r
  ELSE LET d == IntDigits(r.v.v) IN
       IF (r.v.v.neg /\ Less(TwoTo31, d)) \/ (~r.v.v.neg /\ ~Less(d, TwoTo31)) THEN Refuse({Invalid})
       ELSE Fine(IF r.v.v.neg THEN (IF d = TwoTo31 THEN -2147483647 - 1 ELSE -DigitsNat(d)) ELSE DigitsNat(d))
RECURSIVE Sink(_, _)
ConsoleSink(reg, x) ==
  LET f == Get(x, "filter") IN
  IF ~f.ok THEN Fine([k |-> "console", filter |-> [k |-> "none"]])
  ELSE LET r == Filter(reg, f) IN IF r.err # {} THEN r ELSE Fine([k |-> "console", filter |-> r.v])
AsyncSink(reg, x) ==
  LET s == Sink(reg, Get(x, "sink"))
      f == Read(Get(x, "factor"), "uint")
      o == Read(Get(x, "overflow"), "string")
      n == IF f.err = {} /\ f.v.has THEN Size(f) ELSE 10
      p == IF o.err = {} /\ o.v.has THEN StrOf(o) ELSE B("wait")
      e == s.err \cup Both(f, o) \cup (IF n \notin 2..20 \/ p \notin {B("wait"), B("drop")} THEN {Invalid} ELSE {})
  IN IF e # {} THEN Refuse(e) ELSE Fine([k |-> "async", sink |-> s.v, factor |-> n, drop |-> p = B("drop")])
UserSink(x) == LET i == Read(Get(x, "id"), "string") IN
  IF Get(x, "boom").ok THEN Refuse({[st |-> "domain_error", has |-> <<>>]} \cup i.err)
  ELSE IF i.err # {} THEN i ELSE Fine([k |-> "rec", id |-> IF i.v.has THEN StrOf(i) ELSE <<>>])
Sink(reg, x) ==
  IF ImplOf(reg, "sink", x, <<>>).err # {} THEN ImplOf(reg, "sink", x, <<>>)
  ELSE LET i == ImplOf(reg, "sink", x, <<>>).v
       IN CASE i = "null" -> Fine([k |-> "null"])
            [] i = "console" -> ConsoleSink(reg, x)
            [] i = "file" -> FileSink(x)
            [] i = "tcp" -> Socket("tcp", x)
            [] i = "udp" -> Socket("udp", x)
            [] i = "syslog" -> (LET p == Each(Get(x, "priorities"), Priority) IN IF p.err # {} THEN p ELSE Fine([k |-> "syslog", prios |-> p.v]))
            [] i = "asynchronous" -> AsyncSink(reg, x)
            [] i = "rec" -> UserSink(x)

(* ---- handlers and loggers ------------------------------------------------------------------ *)
Blocking(reg, x) ==
  LET f == Formatter(reg, Get(x, "formatter"))
      one(s) == Sink(reg, s)
      ss == Each(Get(x, "sinks"), one)
  IN IF Both(f, ss) # {} THEN Refuse(Both(f, ss)) ELSE Fine([k |-> "blocking", f |-> f.v, sinks |-> ss.v])
UserHandler(x) == LET i == Read(Get(x, "id"), "string") IN IF i.err # {} THEN i ELSE Fine([k |-> "uh", id |-> IF i.v.has THEN StrOf(i) ELSE <<>>])
Handler(reg, x) ==
  LET i == ImplOf(reg, "handler", x, B("blocking")) IN
  IF i.err # {} THEN i ELSE IF i.v = "blocking" THEN Blocking(reg, x) ELSE UserHandler(x)
(* The logger that a document describes under a name. *)
Described(reg, doc, name) ==
  LET x == Step(Some(doc, <<>>), [k |-> name])
      one(h) == Handler(reg, h)
  IN IF ~x.ok THEN Refuse({Unknown(name)}) ELSE Each(x, one)

(* ---- what a logger does ---------------------------------------------------------------------- *)
(* Its sinks in the order records reach them. *)
Parts(handlers) ==
  Cat([i \in 1..Len(handlers) |->
    IF handlers[i].k = "uh" THEN << [f |-> [k |-> "none"], s |-> handlers[i], at |-> <<i, 0>>] >>
    ELSE [j \in 1..Len(handlers[i].sinks) |-> [f |-> handlers[i].f, s |-> handlers[i].sinks[j], at |-> <<i, j>>]]])
(* Where asynchronous ones end. *)
RECURSIVE Inner(_)
Inner(s) == IF s.k = "async" THEN Inner(s.sink) ELSE s
(* Effects: adjacent ones of a stream are one. *)
Streams == {"console", "tcp"}
Joins(a, b) == a.k \in Streams /\ a.k = b.k /\ (a.k = "tcp" => a.host = b.host /\ a.port = b.port)
AddEffect(out, e) == IF out # <<>> /\ Joins(out[Len(out)], e) THEN [out EXCEPT ![Len(out)] = [@ EXCEPT !.b = @ \o e.b]] ELSE Append(out, e)
PriorityOf(prios, sev) == IF sev >= 0 /\ sev < Len(prios) THEN prios[sev + 1] ELSE 3
(* The effects of one record at one sink, files apart. *)
Effects(s, sev, text) ==
  CASE s.k = "rec" -> << [k |-> "rec", id |-> s.id, b |-> text] >>
    [] s.k = "uh" -> << [k |-> "uh", id |-> s.id, sev |-> sev] >>
    [] s.k = "console" -> IF Denies(s.filter, sev) THEN <<>> ELSE << [k |-> "console", b |-> Append(text, LF)] >>
    [] s.k = "tcp" -> IF text = <<>> THEN <<>> ELSE << [k |-> "tcp", host |-> s.host, port |-> s.port, b |-> text] >>
    [] s.k = "udp" -> << [k |-> "udp", host |-> s.host, port |-> s.port, b |-> text] >>
    [] s.k = "syslog" -> << [k |-> "syslog", prio |-> PriorityOf(s.prios, sev), b |-> text] >>
    [] OTHER -> <<>>
(* A file sink: the file it has open (0: none), what waits and what was counted since the last flush. *)
Closed == [ino |-> 0, pend |-> <<>>, cnt |-> 0]
(* Files: the file of each name (0: none) and the contents of files. *)
FileEmit(s, st, names, inos, text) ==
  LET old == IF st.ino # 0 /\ s.stat /\ names[s.path] # st.ino THEN [inos EXCEPT ![st.ino] = @ \o st.pend] ELSE inos
      st1 == IF st.ino # 0 /\ s.stat /\ names[s.path] # st.ino THEN Closed ELSE st
      fresh == st1.ino = 0 /\ names[s.path] = 0
      inos2 == IF fresh THEN Append(old, <<>>) ELSE old
      names2 == IF fresh THEN [names EXCEPT ![s.path] = Len(inos2)] ELSE names
      ino == IF st1.ino # 0 THEN st1.ino ELSE names2[s.path]
      pend == Append(st1.pend \o text, LF)
      c == IF s.flush.k = "count" THEN st1.cnt + 1 ELSE IF s.flush.k = "bytes" THEN st1.cnt + Len(text) + 1 ELSE 0
      due == s.flush.k # "none" /\ c >= s.flush.n
  IN [st |-> [ino |-> ino, pend |-> IF due THEN <<>> ELSE pend, cnt |-> IF s.flush.k = "none" THEN 0 ELSE c % s.flush.n],
      names |-> names2, inos |-> IF due THEN [inos2 EXCEPT ![ino] = @ \o pend] ELSE inos2]
FileClose(st, inos) == IF st.ino = 0 THEN inos ELSE [inos EXCEPT ![st.ino] = @ \o st.pend]
=============================================================================
