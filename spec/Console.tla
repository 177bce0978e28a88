------------------------------ MODULE Console ------------------------------
(* Console sinks: any number of them, and of threads, writing to the         *)
(* standard streams (1 output, 2 error).  An emit whose record the sink's    *)
(* filter accepts puts one whole line on the sink's stream: the message,     *)
(* within the colour of the record and a reset when the stream is a          *)
(* terminal and the mapping gives the record a colour, and a newline; it is  *)
(* flushed when the emit returns.  From its first byte to its flush nobody   *)
(* else writes on either stream.                                             *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Sinks,
          SinkOf(_),     \* [stream, deny, fthrow, map] of a sink
          Tty(_)         \* is the stream a terminal?

VARIABLES fr,      \* per thread: the emit in progress
          owner    \* the thread whose line is unfinished, 0: none
cvars == <<fr, owner>>

Idle == [pc |-> "idle"]
Default == 39
ESC == 27

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Seq1(code) == <<ESC, 91>> \o Digits(code) \o <<109>>
(* The attribute number may be spelled out. *)
Escapes(code) == { Seq1(code), <<ESC, 91, 48, 59>> \o Digits(code) \o <<109>> }

(* The mapping is a list of rules, the latest first: a rule for one severity *)
(* applies to its records only, a function to all that come to it.           *)
RECURSIVE ColourOf(_, _)
ColourOf(map, sev) ==
  IF map = <<>> THEN Default
  ELSE LET m == map[Len(map)] IN
       IF m.k = "fn" THEN (IF \E i \in 1..Len(m.tab) : m.tab[i][1] = sev
                           THEN m.tab[CHOOSE i \in 1..Len(m.tab) : m.tab[i][1] = sev][2] ELSE Default)
       ELSE IF m.sev = sev THEN m.col
       ELSE ColourOf(SubSeq(map, 1, Len(map) - 1), sev)
Thrown == -1     \* the "colour" of a mapping that throws

Coloured(k, sev) == Tty(SinkOf(k).stream) /\ ColourOf(SinkOf(k).map, sev) # Default
Lines(k, sev, msg) ==
  IF Coloured(k, sev)
  THEN { c \o msg \o r \o <<10>> : c \in Escapes(ColourOf(SinkOf(k).map, sev)), r \in Escapes(0) \cup {<<ESC, 91, 109>>} }
  ELSE { msg \o <<10>> }

In(sev, s) == \E i \in 1..Len(s) : s[i] = sev
Verdict(k, sev) == IF In(sev, SinkOf(k).fthrow) THEN "throw" ELSE IF In(sev, SinkOf(k).deny) THEN "deny" ELSE "pass"
(* What an emit must do: a line, nothing, or an exception. *)
Duty(k, sev) == IF Verdict(k, sev) # "pass" THEN Verdict(k, sev)
                ELSE IF Tty(SinkOf(k).stream) /\ ColourOf(SinkOf(k).map, sev) = Thrown THEN "throw" ELSE "pass"

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Begun(t) == owner = t

CInit == fr = [t \in Threads |-> Idle] /\ owner = 0

Call(t, k, sev, msg) ==
  /\ fr[t].pc = "idle"
  /\ fr' = [fr EXCEPT ![t] = [pc |-> "in", k |-> k, duty |-> Duty(k, sev), done |-> <<>>, flushed |-> FALSE, failed |-> FALSE,
                              lines |-> IF Duty(k, sev) = "pass" THEN Lines(k, sev, msg) ELSE {}]]
  /\ UNCHANGED owner

(* Bytes appear on a stream. *)
MayWrite(t, s, b) ==
  /\ fr[t].pc = "in" /\ fr[t].duty = "pass" /\ ~fr[t].failed
  /\ s = SinkOf(fr[t].k).stream
  /\ owner \in {0, t}
  /\ \E line \in fr[t].lines : IsPrefixOf(fr[t].done \o b, line)
WriteEffect(t, s, b) ==
  /\ owner' = IF b = <<>> THEN owner ELSE t
  /\ fr' = [fr EXCEPT ![t].done = @ \o b, ![t].flushed = FALSE]
Write(t, s, b) == MayWrite(t, s, b) /\ WriteEffect(t, s, b)

(* Standard error is unbuffered and flushes standard output before it is     *)
(* written, so flushes may come at any time but not between the bytes of     *)
(* somebody else's line.                                                     *)
MayFlush(t, s) == fr[t].pc = "in" /\ owner \in {0, t}
FlushEffect(t, s) ==
  IF s = SinkOf(fr[t].k).stream /\ fr[t].done \in fr[t].lines
  THEN /\ fr' = [fr EXCEPT ![t].flushed = TRUE]
       /\ owner' = IF owner = t THEN 0 ELSE owner
  ELSE UNCHANGED cvars
Flush(t, s) == MayFlush(t, s) /\ FlushEffect(t, s)

(* The stream breaks in the middle of an operation and says so with an       *)
(* exception: the line stays unfinished and the emit fails, no more.         *)
Break(t, s) ==
  /\ MayWrite(t, s, <<>>)
  /\ fr' = [fr EXCEPT ![t].failed = TRUE]
  /\ owner' = 0

MayReturn(t, res) ==
  /\ fr[t].pc = "in"
  /\ CASE fr[t].failed -> res = "exc"
       [] ~fr[t].failed /\ fr[t].duty = "deny" -> res = "ok"
       [] ~fr[t].failed /\ fr[t].duty = "throw" -> res = "exc"
       [] OTHER -> res = "ok" /\ fr[t].done \in fr[t].lines /\ fr[t].flushed
ReturnEffect(t) ==
  /\ fr' = [fr EXCEPT ![t] = Idle]
  /\ owner' = IF owner = t THEN 0 ELSE owner
Return(t, res) == MayReturn(t, res) /\ ReturnEffect(t)
=============================================================================
