------------------------------- MODULE Syslog ------------------------------
(* Syslog sinks.  Every emit makes one entry with the whole message as it    *)
(* is, with the priority its severity is mapped to, under the identity and   *)
(* options of the sinks, which are in force as long as any sink lives.       *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Sinks,
          Priorities(_)     \* of a sink: a list of priorities by severity

VARIABLES fr,      \* per thread: the emit in progress
          live,    \* constructed sinks
          force    \* identity, option and facility in force: "sinks", "none", or something else
svars == <<fr, live, force>>

LOG_ERR == 3
Idle == [pc |-> "idle"]
PriorityOf(k, sev) == IF sev >= 0 /\ sev < Len(Priorities(k)) THEN Priorities(k)[sev + 1] ELSE LOG_ERR

SyslogInit == fr = [t \in Threads |-> Idle] /\ live = {} /\ force = "none"

Construct(k) == k \notin live /\ live' = live \cup {k} /\ UNCHANGED <<fr, force>>
Call(t, k, sev, msg) ==
  /\ fr[t].pc = "idle" /\ k \in live
  /\ fr' = [fr EXCEPT ![t] = [pc |-> "in", k |-> k, prio |-> PriorityOf(k, sev), msg |-> msg, n |-> 0]]
  /\ UNCHANGED <<live, force>>
Open(f) == force' = f /\ UNCHANGED <<fr, live>>
Close == force' = "none" /\ UNCHANGED <<fr, live>>
MayEntry(t, prio, text) ==
  /\ fr[t].pc = "in" /\ fr[t].n = 0
  /\ prio = fr[t].prio /\ text = fr[t].msg
  /\ force = "sinks"
Entry(t, prio, text) == MayEntry(t, prio, text) /\ fr' = [fr EXCEPT ![t].n = 1] /\ UNCHANGED <<live, force>>
MayReturn(t) == fr[t].pc = "in" /\ fr[t].n = 1
Return(t) == MayReturn(t) /\ fr' = [fr EXCEPT ![t] = Idle] /\ UNCHANGED <<live, force>>
Destruct(k) ==
  /\ k \in live /\ \A t \in Threads : IF fr[t].pc = "in" THEN fr[t].k # k ELSE TRUE
  /\ live' = live \ {k} /\ UNCHANGED <<fr, force>>
=============================================================================
