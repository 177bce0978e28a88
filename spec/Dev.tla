-------------------------------- MODULE Dev --------------------------------
(* The development handler: every record becomes one block on the standard   *)
(* output, a head line and a line per attribute, coloured when the output is *)
(* a terminal.  Blocks of any number of handlers and threads never mix, and  *)
(* a block has been flushed when the call returns.                           *)
EXTENDS Fmt, Calendar

CONSTANT Threads

VARIABLES fr,        \* per thread: the call in progress
          owner      \* the thread whose block is unfinished, 0: none
dvars == <<fr, owner>>

Gray == 2
Colour(tty, code) == IF tty THEN <<27, 91>> \o ShowNat(code) \o <<109>> ELSE <<>>
Reset(tty) == Colour(tty, 0)

LevelOf(sev) == IF sev.neg THEN 4 ELSE LET n == IF Len(sev.d) > 1 THEN 4 ELSE DigitsNat(sev.d) IN IF n > 3 THEN 4 ELSE n
Letter == [n \in 0..4 |-> CASE n = 0 -> 68 [] n = 1 -> 73 [] n = 2 -> 87 [] n = 3 -> 69 [] n = 4 -> 84]        \* D I W E T
Shade == [n \in 0..4 |-> CASE n = 1 -> 32 [] n = 2 -> 33 [] n = 3 -> 31 [] OTHER -> Gray]

Plain(v) == CASE v.t = "n" -> B("none")
              [] v.t = "f" -> v.v
              [] v.t = "b" -> IF v.v THEN <<49>> ELSE <<48>>
              [] OTHER -> FmtBy(<<>>, v).s
Cell(s) == IF Len(s) >= 16 THEN SubSeq(s, 1, 16) ELSE s \o Rep(32, 16 - Len(s))

(* tty: is standard output a terminal?  r: [message, sev, attrs (flat, in order), t, pid, tid]. *)
Head1(r, tty) ==
  Colour(tty, Gray) \o Strftime(B("%Y-%m-%d %H:%M:%S.%f"), r.t, Utc) \o B(" ")
  \o Colour(tty, Shade[LevelOf(r.sev)]) \o <<Letter[LevelOf(r.sev)]>> \o B(" ") \o Show(r.tid.d) \o B("/") \o Show(r.pid.d)
  \o Reset(tty) \o Colour(tty, Gray) \o B(" - ") \o Reset(tty) \o r.message \o Reset(tty)
Line(a, tty) == <<10>> \o Colour(tty, Gray) \o B("    ") \o Cell(a.k) \o B(": ") \o Reset(tty) \o Plain(a.v)
Block(r, tty) == Head1(r, tty) \o Cat([i \in 1..Len(r.attrs) |-> Line(r.attrs[i], tty)]) \o <<10>>

(* ---- what a call does with its block --------------------------------------------- *)
Idle == [pc |-> "idle"]
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Complete(t) == fr[t].left = <<>>

DInit == fr = [t \in Threads |-> Idle] /\ owner = 0
Call(t, block) ==
  /\ fr[t].pc = "idle"
  /\ fr' = [fr EXCEPT ![t] = [pc |-> "in", left |-> block, flushed |-> FALSE, failed |-> FALSE]]
  /\ UNCHANGED owner
MayWrite(t, b) ==
  /\ fr[t].pc = "in" /\ ~fr[t].failed
  /\ owner \in {0, t}
  /\ IsPrefixOf(b, fr[t].left)
WriteEffect(t, b) ==
  /\ owner' = IF b = <<>> THEN owner ELSE t
  /\ fr' = [fr EXCEPT ![t].left = SubSeq(@, Len(b) + 1, Len(@)), ![t].flushed = FALSE]
Write(t, b) == MayWrite(t, b) /\ WriteEffect(t, b)
MayFlush(t) == fr[t].pc = "in" /\ owner \in {0, t}
FlushEffect(t) ==
  IF Complete(t) THEN /\ fr' = [fr EXCEPT ![t].flushed = TRUE]
                      /\ owner' = IF owner = t THEN 0 ELSE owner
  ELSE UNCHANGED dvars
Flush(t) == MayFlush(t) /\ FlushEffect(t)
(* The stream breaks and says so with an exception: the call fails, no more. *)
Break(t) ==
  /\ MayWrite(t, <<>>)
  /\ fr' = [fr EXCEPT ![t].failed = TRUE]
  /\ owner' = 0
MayReturn(t, res) ==
  /\ fr[t].pc = "in"
  /\ IF fr[t].failed THEN res = "exc" ELSE res = "ok" /\ Complete(t) /\ fr[t].flushed
ReturnEffect(t) ==
  /\ fr' = [fr EXCEPT ![t] = Idle]
  /\ owner' = IF owner = t THEN 0 ELSE owner
Return(t, res) == MayReturn(t, res) /\ ReturnEffect(t)
=============================================================================
