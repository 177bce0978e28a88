-------------------------------- MODULE Udp --------------------------------
(* UDP sinks.  Every emit sends one datagram with exactly the message to the *)
(* sink's address and port, or fails; nothing else is ever sent.             *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Sinks, Limit      \* the largest datagram
VARIABLES fr, alive,
          sent       \* per sink: the datagrams that left
uvars == <<fr, alive, sent>>

Idle == [pc |-> "idle"]
UdpInit == fr = [t \in Threads |-> Idle] /\ alive = {} /\ sent = [k \in Sinks |-> <<>>]
Create(k) == k \notin alive /\ alive' = alive \cup {k} /\ UNCHANGED <<fr, sent>>
Call(t, k, msg) ==
  /\ fr[t].pc = "idle" /\ k \in alive
  /\ fr' = [fr EXCEPT ![t] = [pc |-> "in", k |-> k, msg |-> msg, done |-> FALSE, failed |-> FALSE, soft |-> FALSE]]
  /\ UNCHANGED <<alive, sent>>
Sendable(t) == fr[t].pc = "in" /\ ~fr[t].done /\ ~fr[t].failed
Send(t, b) ==
  /\ Sendable(t) /\ b = fr[t].msg
  /\ fr' = [fr EXCEPT ![t].done = TRUE, ![t].soft = FALSE] /\ sent' = [sent EXCEPT ![fr[t].k] = Append(@, b)] /\ UNCHANGED alive
(* The system refuses: finally, or saying "again". *)
Refuse(t, soft) ==
  /\ Sendable(t)
  /\ fr' = [fr EXCEPT ![t].failed = ~soft, ![t].soft = soft] /\ UNCHANGED <<alive, sent>>
(* An error of an earlier datagram says nothing about this one, which is still to be sent. *)
Stale(t) == Sendable(t) /\ UNCHANGED uvars
Return(t, res) ==
  /\ fr[t].pc = "in"
  /\ CASE fr[t].done -> res = "ok" [] fr[t].failed \/ fr[t].soft -> res = "sys" [] OTHER -> FALSE
  /\ fr' = [fr EXCEPT ![t] = Idle] /\ UNCHANGED <<alive, sent>>
Destroy(k) ==
  /\ k \in alive /\ \A t \in Threads : IF fr[t].pc = "in" THEN fr[t].k # k ELSE TRUE
  /\ alive' = alive \ {k} /\ UNCHANGED <<fr, sent>>
=============================================================================
