------------------------------ MODULE MCSyslog -----------------------------
(* How the sinks do it: the log is one for the process and keeps a pointer   *)
(* to the identity of the sink that opened it last, so whenever a sink goes  *)
(* the log is opened again for one that stays, or closed with the last one.  *)
EXTENDS Syslog, TLC

CONSTANTS Mistake, Budget
VARIABLES ptr,      \* whose identity the log points at, 0: closed
          alive,    \* memory of sinks
          left
mvars == <<svars, ptr, alive, left>>

T2 == {1, 2}
K2 == {1, 2}
K3 == {1, 2, 3}
MPriorities(k) == IF k = 1 THEN <<>> ELSE <<5, 2>>
Sevs == {-1, 0, 1, 2}

ForceOf(p, al) == IF p = 0 THEN "none" ELSE IF p \in al THEN "sinks" ELSE "dangling"
MInit == SyslogInit /\ ptr = 0 /\ alive = {} /\ left = Budget
MNew(k) == /\ left > 0 /\ left' = left - 1 /\ k \notin alive
           /\ alive' = alive \cup {k} /\ live' = live \cup {k} /\ UNCHANGED fr
           /\ ptr' = IF Mistake = "moved" THEN 0 ELSE k
           /\ force' = ForceOf(ptr', alive')
MDel(k) == /\ k \in live /\ \A t \in Threads : IF fr[t].pc = "in" THEN fr[t].k # k ELSE TRUE
           /\ live' = live \ {k} /\ alive' = alive \ {k} /\ UNCHANGED <<fr, left>>
           /\ ptr' = CASE Mistake = "closeall" -> 0
                       [] Mistake = "count" -> IF live' = {} THEN 0 ELSE ptr
                       [] OTHER -> IF live' = {} THEN 0 ELSE IF ptr = k THEN CHOOSE x \in live' : TRUE ELSE ptr
           /\ force' = ForceOf(ptr', alive')
MCall(t) == /\ left > 0 /\ left' = left - 1
            /\ \E k \in Sinks, sev \in Sevs : Call(t, k, sev, <<65 + left>>)
            /\ UNCHANGED <<ptr, alive>>
MEntry(t) == fr[t].pc = "in" /\ fr[t].n = 0 /\ fr' = [fr EXCEPT ![t].n = 1] /\ UNCHANGED <<live, force, ptr, alive, left>>
MRet(t) == Return(t) /\ UNCHANGED <<ptr, alive, left>>
MNext == (\E k \in Sinks : MNew(k) \/ MDel(k)) \/ \E t \in Threads : MCall(t) \/ MEntry(t) \/ MRet(t)
MSpec == MInit /\ [][MNext]_mvars

InForce == live # {} => force = "sinks"
EntriesRight == [][\A t \in Threads : (fr[t].pc = "in" /\ fr'[t] # fr[t] /\ fr[t].n = 0) => MayEntry(t, fr[t].prio, fr[t].msg)]_mvars
=============================================================================
