------------------------------- MODULE MCDev -------------------------------
(* How the handler does it: piece after piece under a lock shared by all     *)
(* handlers.  Checked to refine Dev; Mistake selects ways of doing it wrong. *)
EXTENDS Dev, TLC

CONSTANTS Mistake, Budget
VARIABLES at, lock, left
mvars == <<fr, owner, at, lock, left>>

T2 == {1, 2}
T3 == {1, 2, 3}
(* What is in the blocks does not matter here: a head, n lines, a newline. *)
Recs == 0..2
Parts(n) == << <<n, 1>> >> \o [i \in 1..n |-> <<n, 2>>] \o << <<10>> >>
Blk(n) == Cat(Parts(n))

MInit == DInit /\ at = [t \in Threads |-> [pc |-> "idle", todo |-> <<>>]] /\ lock = 0 /\ left = Budget
MCall(t) ==
  /\ at[t].pc = "idle" /\ left > 0
  /\ \E r \in Recs : Call(t, Blk(r)) /\ at' = [at EXCEPT ![t] = [pc |-> "lock", todo |-> Parts(r)]]
  /\ left' = left - 1 /\ UNCHANGED lock
MLock(t) ==
  /\ at[t].pc = "lock" /\ (lock = 0 \/ Mistake = "nolock")
  /\ lock' = t /\ at' = [at EXCEPT ![t].pc = "put"] /\ UNCHANGED <<fr, owner, left>>
MPut(t) ==
  /\ at[t].pc = "put" /\ at[t].todo # <<>>
  /\ \/ /\ WriteEffect(t, Head(at[t].todo))
        /\ at' = [at EXCEPT ![t].todo = Tail(@)]
        /\ lock' = IF Mistake = "early" /\ Len(at[t].todo) = 1 THEN 0 ELSE lock
     \/ Break(t) /\ at' = [at EXCEPT ![t] = [pc |-> "exc", todo |-> <<>>]] /\ lock' = IF Mistake = "keeplock" THEN lock ELSE 0
  /\ UNCHANGED left
MFlush(t) ==
  /\ at[t].pc = "put" /\ at[t].todo = <<>>
  /\ IF Mistake = "noflush" THEN UNCHANGED dvars ELSE FlushEffect(t)
  /\ lock' = (IF lock = t THEN 0 ELSE lock) /\ at' = [at EXCEPT ![t].pc = "ok"] /\ UNCHANGED left
MRet(t) == at[t].pc \in {"ok", "exc"} /\ ReturnEffect(t) /\ at' = [at EXCEPT ![t].pc = "idle"] /\ UNCHANGED <<lock, left>>
Step(t) == MLock(t) \/ MPut(t) \/ MFlush(t) \/ MRet(t)
MSpec == MInit /\ [][\E t \in Threads : MCall(t) \/ Step(t)]_mvars /\ \A t \in Threads : WF_mvars(Step(t))

Seen(t) ==
  \/ at[t].pc = "idle" /\ \E r \in Recs : Call(t, Blk(r))
  \/ at[t].pc = "put" /\ at[t].todo # <<>> /\ (Write(t, Head(at[t].todo)) \/ Break(t))
  \/ at[t].pc = "put" /\ at[t].todo = <<>> /\ Flush(t)
  \/ at[t].pc = "ok" /\ Return(t, "ok")
  \/ at[t].pc = "exc" /\ Return(t, "exc")
Refines == [][\E t \in Threads : Seen(t)]_dvars
CallsEnd == \A t \in Threads : at[t].pc # "idle" ~> at[t].pc = "idle"
=============================================================================
