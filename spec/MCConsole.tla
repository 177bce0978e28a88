----------------------------- MODULE MCConsole -----------------------------
(* How the sink does it: filter, then under a lock shared by all sinks the   *)
(* colour, the message, the reset, the newline and the flush.  Checked to    *)
(* refine Console; Mistake selects ways of doing it wrong.                   *)
EXTENDS Console, TLC

CONSTANTS Mistake, Budget

VARIABLES pc, lock, left
mvars == <<fr, owner, pc, lock, left>>

T2 == {1, 2}
T3 == {1, 2, 3}
K2 == {1, 2}
K3 == {1, 2, 3}
(* Sink 1: output, coloured for severity 1, denies 3.  Sink 2: output,       *)
(* mapping that throws for 2.  Sink 3: error.                                *)
MSinkOf(k) ==
  CASE k = 1 -> [stream |-> 1, deny |-> <<3>>, fthrow |-> <<>>, map |-> << [k |-> "sev", sev |-> 1, col |-> 31] >>]
    [] k = 2 -> [stream |-> 1, deny |-> <<>>, fthrow |-> <<3>>, map |-> << [k |-> "fn", tab |-> << <<1, 0>>, <<2, -1>> >>], [k |-> "sev", sev |-> 3, col |-> 2] >>]
    [] OTHER -> [stream |-> 2, deny |-> <<>>, fthrow |-> <<>>, map |-> << [k |-> "sev", sev |-> 1, col |-> 34] >>]
TtyBoth(s) == TRUE
TtyErr(s) == s = 2
Sevs == 1..3
Msg(k, sev) == <<96 + k, 64 + sev>>

S(t) == SinkOf(fr[t].k).stream
Lk(k) == IF Mistake = "ownlock" THEN k ELSE IF Mistake = "streamlock" THEN SinkOf(k).stream ELSE 1
Free(t) == Mistake = "nolock" \/ lock[Lk(fr[t].k)] = 0
Put(t, b) == WriteEffect(t, S(t), b)

MInit == /\ CInit
         /\ pc = [t \in Threads |-> [at |-> "idle", sev |-> 0, col |-> Default]]
         /\ lock = [i \in 1..3 |-> 0] /\ left = Budget

MCall(t) ==
  /\ pc[t].at = "idle" /\ left > 0
  /\ \E k \in Sinks, sev \in Sevs :
       /\ Call(t, k, sev, Msg(k, sev))
       /\ pc' = [pc EXCEPT ![t] = [at |-> "filter", sev |-> sev, col |-> Default]]
  /\ left' = left - 1 /\ UNCHANGED lock
Go(t, at) == pc' = [pc EXCEPT ![t].at = at]
MFilter(t) ==
  /\ pc[t].at = "filter"
  /\ Go(t, IF Mistake = "nofilter" THEN "lock"
           ELSE CASE Verdict(fr[t].k, pc[t].sev) = "pass" -> "lock" [] Verdict(fr[t].k, pc[t].sev) = "deny" -> "ret" [] OTHER -> "exc")
  /\ UNCHANGED <<fr, owner, lock, left>>
MLock(t) ==
  /\ pc[t].at = "lock" /\ Free(t)
  /\ lock' = [lock EXCEPT ![Lk(fr[t].k)] = t]
  /\ Go(t, IF Tty(S(t)) \/ Mistake = "colourpipe" THEN "map" ELSE "msg")
  /\ UNCHANGED <<fr, owner, left>>
MMap(t) ==
  /\ pc[t].at = "map"
  /\ LET c == ColourOf(SinkOf(fr[t].k).map, pc[t].sev) IN
       IF c = Thrown
       THEN /\ pc' = [pc EXCEPT ![t].at = "exc"]
            /\ lock' = IF Mistake = "keeplock" THEN lock ELSE [lock EXCEPT ![Lk(fr[t].k)] = 0]
       ELSE pc' = [pc EXCEPT ![t].at = IF c = Default THEN "msg" ELSE "colour", ![t].col = c] /\ UNCHANGED lock
  /\ UNCHANGED <<fr, owner, left>>
MColour(t) == pc[t].at = "colour" /\ Put(t, Seq1(pc[t].col)) /\ Go(t, "msg") /\ UNCHANGED <<lock, left>>
MMsg(t) ==
  /\ pc[t].at = "msg"
  /\ \/ Put(t, Msg(fr[t].k, pc[t].sev)) /\ Go(t, IF pc[t].col = Default \/ Mistake = "noreset" THEN "nl" ELSE "reset")
     \/ Break(t, S(t)) /\ Go(t, "broken")
  /\ UNCHANGED <<lock, left>>
MReset(t) == pc[t].at = "reset" /\ Put(t, Seq1(0)) /\ Go(t, "nl") /\ UNCHANGED <<lock, left>>
MNewline(t) ==
  /\ pc[t].at = "nl" /\ Put(t, <<10>>)
  /\ Go(t, IF Mistake = "noflush" THEN "unlock" ELSE "flush")
  /\ lock' = IF Mistake = "early" THEN [lock EXCEPT ![Lk(fr[t].k)] = 0] ELSE lock
  /\ UNCHANGED left
MFlush(t) == pc[t].at = "flush" /\ FlushEffect(t, S(t)) /\ Go(t, "unlock") /\ UNCHANGED <<lock, left>>
MUnlock(t) == /\ pc[t].at \in {"unlock", "broken"}
              /\ lock' = [lock EXCEPT ![Lk(fr[t].k)] = IF @ = t THEN 0 ELSE @]
              /\ Go(t, IF pc[t].at = "broken" THEN "exc" ELSE "ret") /\ UNCHANGED <<fr, owner, left>>
MRet(t) == pc[t].at \in {"ret", "exc"} /\ ReturnEffect(t) /\ Go(t, "idle") /\ UNCHANGED <<lock, left>>

Step(t) == MFilter(t) \/ MLock(t) \/ MMap(t) \/ MColour(t) \/ MMsg(t) \/ MReset(t) \/ MNewline(t) \/ MFlush(t) \/ MUnlock(t) \/ MRet(t)
MNext == \E t \in Threads : MCall(t) \/ Step(t)
MSpec == MInit /\ [][MNext]_mvars /\ \A t \in Threads : WF_mvars(Step(t))

(* Refinement: every step that changes what can be seen is one of Console.   *)
Seen(t) ==
  \/ pc[t].at = "idle" /\ \E k \in Sinks, sev \in Sevs : Call(t, k, sev, Msg(k, sev))
  \/ pc[t].at = "colour" /\ Write(t, S(t), Seq1(pc[t].col))
  \/ pc[t].at = "msg" /\ Write(t, S(t), Msg(fr[t].k, pc[t].sev))
  \/ pc[t].at = "msg" /\ Break(t, S(t))
  \/ pc[t].at = "reset" /\ Write(t, S(t), Seq1(0))
  \/ pc[t].at = "nl" /\ Write(t, S(t), <<10>>)
  \/ pc[t].at = "flush" /\ Flush(t, S(t))
  \/ pc[t].at = "ret" /\ Return(t, "ok")
  \/ pc[t].at = "exc" /\ Return(t, "exc")
Refines == [][\E t \in Threads : Seen(t)]_cvars

(* The lock is never left behind. *)
EmitsEnd == \A t \in Threads : pc[t].at # "idle" ~> pc[t].at = "idle"
=============================================================================
