----------------------------- MODULE AsyncSink -----------------------------
(* The asynchronous sink: any number of producers, a bounded queue, one      *)
(* consumer thread that writes to the wrapped sink, and the destructor.      *)
(* One action per atomic step of src/sink/asynchronous.p.cpp.                *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS
  Configs,     \* set of [cap, policy, fails, flagFirst, hide]
  Producers,   \* threads calling emit
  Recs         \* records that may be emitted, each at most once

NoRec == 0     \* records are positive numbers

VARIABLES
  conf,        \* the configuration, never changes
  ppc, pcur,   \* producers: control state and current record
  full,        \* full[p]: the queue was full at some moment since p looked last
  q,           \* the queue
  accepted,    \* history: records in the order they were enqueued
  dropped,     \* history: records refused by the drop policy
  stopped,     \* the stop flag
  cpc, cstop, chand,   \* consumer: control state, flag as read, record in hand
  written,     \* history: records passed to the wrapped sink
  crashed,     \* an exception left the consumer thread
  wrapped,     \* the wrapped sink is alive
  dpc          \* the destructor's control state

pvars == <<ppc, pcur, full>>
cvars == <<cpc, cstop, chand, written, crashed>>
vars  == <<conf, ppc, pcur, full, q, accepted, dropped, stopped, cpc, cstop, chand,
           written, crashed, wrapped, dpc>>

Range(s) == { s[i] : i \in 1..Len(s) }

InitWith(c) ==
  /\ conf = c
  /\ ppc = [p \in Producers |-> "idle"]
  /\ pcur = [p \in Producers |-> NoRec]
  /\ full = [p \in Producers |-> FALSE]
  /\ q = <<>> /\ accepted = <<>> /\ dropped = {}
  /\ stopped = FALSE
  /\ cpc = "loop" /\ cstop = FALSE /\ chand = NoRec
  /\ written = <<>> /\ crashed = FALSE
  /\ wrapped = TRUE
  /\ dpc = "no"

Init == \E c \in Configs : InitWith(c)

(* ---- producers ---------------------------------------------------------- *)

Call(p, r) ==
  /\ dpc = "no" /\ ppc[p] = "idle"
  /\ r \notin Range(accepted) \cup dropped
  /\ \A o \in Producers : pcur[o] # r
  /\ ppc' = [ppc EXCEPT ![p] = "try"]
  /\ pcur' = [pcur EXCEPT ![p] = r]
  /\ full' = [full EXCEPT ![p] = (Len(q) = conf.cap)]
  /\ UNCHANGED <<conf, q, accepted, dropped, stopped, cvars, wrapped, dpc>>

(* Copying the record into owned memory fails (an attribute's own code       *)
(* throws): the call throws and nothing is accepted.                         *)
CopyFails(p) ==
  /\ ppc[p] = "try"
  /\ ppc' = [ppc EXCEPT ![p] = "threw"]
  /\ UNCHANGED <<conf, pcur, full, q, accepted, dropped, stopped, cvars, wrapped, dpc>>

Enqueue(p) ==
  /\ ppc[p] = "try" /\ Len(q) < conf.cap
  /\ q' = Append(q, pcur[p])
  /\ accepted' = Append(accepted, pcur[p])
  /\ ppc' = [ppc EXCEPT ![p] = "done"]
  /\ full' = [o \in Producers |-> full[o] \/ Len(q') = conf.cap]
  /\ UNCHANGED <<conf, pcur, dropped, stopped, cvars, wrapped, dpc>>

FindFull(p) ==
  /\ ppc[p] = "try" /\ Len(q) = conf.cap
  /\ ppc' = [ppc EXCEPT ![p] = "full"]
  /\ UNCHANGED <<conf, pcur, full, q, accepted, dropped, stopped, cvars, wrapped, dpc>>

Drop(p) ==
  /\ ppc[p] = "full" /\ conf.policy = "drop"
  /\ dropped' = dropped \cup {pcur[p]}
  /\ ppc' = [ppc EXCEPT ![p] = "done"]
  /\ UNCHANGED <<conf, pcur, full, q, accepted, stopped, cvars, wrapped, dpc>>

Retry(p) ==
  /\ ppc[p] = "full" /\ conf.policy = "wait"
  /\ ppc' = [ppc EXCEPT ![p] = "try"]
  /\ UNCHANGED <<conf, pcur, full, q, accepted, dropped, stopped, cvars, wrapped, dpc>>

Return(p) ==
  /\ ppc[p] \in {"done", "threw"}
  /\ ppc' = [ppc EXCEPT ![p] = "idle"]
  /\ pcur' = [pcur EXCEPT ![p] = NoRec]
  /\ UNCHANGED <<conf, full, q, accepted, dropped, stopped, cvars, wrapped, dpc>>

(* ---- consumer ----------------------------------------------------------- *)

(* flagFirst: the flag is read before the queue is looked at (as the code    *)
(* must do it); otherwise it is read only after the queue was found empty.   *)
ReadFlag ==
  /\ cpc = "loop" /\ conf.flagFirst
  /\ cstop' = stopped /\ cpc' = "look"
  /\ UNCHANGED <<conf, pvars, q, accepted, dropped, stopped, chand, written, crashed, wrapped, dpc>>

Dequeue ==
  /\ cpc = IF conf.flagFirst THEN "look" ELSE "loop"
  /\ q # <<>>
  /\ chand' = Head(q) /\ q' = Tail(q) /\ cpc' = "have"
  /\ UNCHANGED <<conf, pvars, accepted, dropped, stopped, cstop, written, crashed, wrapped, dpc>>

Empty ==
  /\ cpc = IF conf.flagFirst THEN "look" ELSE "loop"
  /\ q = <<>>
  /\ cpc' = IF ~conf.flagFirst THEN "late" ELSE IF cstop THEN "exit" ELSE "sleep"
  /\ UNCHANGED <<conf, pvars, q, accepted, dropped, stopped, cstop, chand, written, crashed, wrapped, dpc>>

LateFlag ==
  /\ cpc = "late"
  /\ cstop' = stopped
  /\ cpc' = IF stopped THEN "exit" ELSE "sleep"
  /\ UNCHANGED <<conf, pvars, q, accepted, dropped, stopped, chand, written, crashed, wrapped, dpc>>

Sleep ==
  /\ cpc = "sleep" /\ cpc' = "loop"
  /\ UNCHANGED <<conf, pvars, q, accepted, dropped, stopped, cstop, chand, written, crashed, wrapped, dpc>>

WriteBegin ==
  /\ cpc = "have" /\ wrapped
  /\ written' = Append(written, chand)
  /\ cpc' = "writing"
  /\ UNCHANGED <<conf, pvars, q, accepted, dropped, stopped, cstop, chand, crashed, wrapped, dpc>>

WriteEnd(ok) ==
  /\ cpc = "writing"
  /\ ok <=> chand \notin conf.fails
  /\ chand' = NoRec
  /\ IF ok \/ conf.hide
       THEN cpc' = "loop" /\ crashed' = crashed
       ELSE cpc' = "dead" /\ crashed' = TRUE
  /\ UNCHANGED <<conf, pvars, q, accepted, dropped, stopped, cstop, written, wrapped, dpc>>

(* ---- destructor --------------------------------------------------------- *)

DestroyCall ==
  /\ dpc = "no" /\ \A p \in Producers : ppc[p] = "idle"
  /\ dpc' = "flag"
  /\ UNCHANGED <<conf, pvars, q, accepted, dropped, stopped, cvars, wrapped>>

SetFlag ==
  /\ dpc = "flag" /\ stopped' = TRUE /\ dpc' = "join"
  /\ UNCHANGED <<conf, pvars, q, accepted, dropped, cvars, wrapped>>

Join ==
  /\ dpc = "join" /\ cpc = "exit" /\ dpc' = "free"
  /\ UNCHANGED <<conf, pvars, q, accepted, dropped, stopped, cvars, wrapped>>

FreeWrapped ==
  /\ dpc = "free" /\ wrapped /\ wrapped' = FALSE /\ dpc' = "freed"
  /\ UNCHANGED <<conf, pvars, q, accepted, dropped, stopped, cvars>>

DestroyReturn ==
  /\ dpc = "freed" /\ dpc' = "done"
  /\ UNCHANGED <<conf, pvars, q, accepted, dropped, stopped, cvars, wrapped>>

PStep(p) == CopyFails(p) \/ Enqueue(p) \/ FindFull(p) \/ Drop(p) \/ Retry(p) \/ Return(p)
CStep == ReadFlag \/ Dequeue \/ Empty \/ LateFlag \/ Sleep \/ WriteBegin
           \/ WriteEnd(TRUE) \/ WriteEnd(FALSE)
DStep == SetFlag \/ Join \/ FreeWrapped \/ DestroyReturn

Next ==
  \/ \E p \in Producers : \E r \in Recs : Call(p, r)
  \/ \E p \in Producers : PStep(p)
  \/ CStep
  \/ DestroyCall \/ DStep

Fairness ==
  /\ \A p \in Producers : /\ WF_vars(Enqueue(p) \/ FindFull(p))
                          /\ SF_vars(Enqueue(p))
                          /\ WF_vars(Drop(p)) /\ WF_vars(Retry(p)) /\ WF_vars(Return(p))
  /\ WF_vars(CStep) /\ WF_vars(DStep)

Spec == Init /\ [][Next]_vars /\ Fairness

(* ---- properties --------------------------------------------------------- *)

TypeOK ==
  /\ Len(q) <= conf.cap
  /\ cpc \in {"loop", "look", "late", "sleep", "have", "writing", "exit", "dead"}
  /\ \A p \in Producers : ppc[p] \in {"idle", "try", "full", "done", "threw"}

InHand == IF cpc = "have" THEN <<chand>> ELSE <<>>

(* P05: what was accepted is written exactly once and in order, and nothing  *)
(* else is written.                                                          *)
Conservation == written \o InHand \o q = accepted
NoDup == \A i, j \in 1..Len(written) : written[i] = written[j] => i = j

(* P06 *)
NothingLostAtDestruction == dpc \in {"free", "freed", "done"} => written = accepted
NothingAfterDestruction == ~wrapped => cpc \in {"exit", "dead"}
DestructionEnds == (dpc = "flag") ~> (dpc = "done")
EventuallyWritten == \A r \in Recs : (r \in Range(accepted)) ~> (r \in Range(written))

(* P07 *)
DropsOnlyWithPolicy == conf.policy = "wait" => dropped = {}
DropsOnlyWhenFull == \A p \in Producers : ppc[p] = "full" => full[p] \/ Len(q) = conf.cap
CallsEnd == \A p \in Producers : (ppc[p] = "try") ~> (ppc[p] = "idle")
DropNeverDelivered == Range(accepted) \cap dropped = {}

(* P08 *)
Hidden == ~crashed
=============================================================================
