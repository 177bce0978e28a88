------------------------------- MODULE MCTcp -------------------------------
(* How the sink does it: a lock, a connection made when there is none, a     *)
(* loop of sends, the connection given up on an error.  Checked to refine    *)
(* Tcp, for every outcome of every connect and send.                         *)
EXTENDS Tcp, TLC

CONSTANTS Mistake, Budget, Faults

VARIABLES pc, lock, left, bad, log
mvars == <<fr, cur, busy, sent, open, alive, pc, lock, left, bad, log>>

T2 == {1, 2}
K1 == {1}
K2 == {1, 2}
Two(k) == 2
OneTwo(k) == k
None(k) == 0
Msg(t, n) == [i \in 1..2 |-> 10 * n + i]

MInit == /\ TcpInit
         /\ pc = [t \in Threads |-> [at |-> "idle", off |-> 0, a |-> 0, conn |-> 0]]
         /\ lock = [k \in Sinks |-> 0] /\ left = Budget /\ bad = Faults /\ log = [k \in Sinks |-> <<>>]

Set(t, f) == pc' = [pc EXCEPT ![t] = f @@ @]
K(t) == fr[t].k
MCreate(k) == left = Budget /\ Create(k) /\ UNCHANGED <<pc, lock, left, bad, log>>
MCall(t) ==
  /\ left > 0 /\ alive = Sinks
  /\ \E k \in Sinks : Call(t, k, Msg(t, left))
  /\ Set(t, [at |-> "lock", off |-> 0, a |-> 1]) /\ left' = left - 1 /\ UNCHANGED <<lock, bad, log>>
MLock(t) ==
  /\ pc[t].at = "lock" /\ (lock[K(t)] = 0 \/ Mistake = "nolock")
  /\ lock' = [lock EXCEPT ![K(t)] = t]
  /\ Set(t, [at |-> IF cur[K(t)] = 0 /\ ~(Mistake = "keep" /\ log[K(t)] # <<>>) THEN "connect" ELSE "send",
             conn |-> IF Mistake = "keep" /\ log[K(t)] # <<>> THEN log[K(t)][Len(log[K(t)])] ELSE cur[K(t)]])
  /\ UNCHANGED <<fr, cur, busy, sent, open, alive, left, bad, log>>
MConnect(t) ==
  /\ pc[t].at = "connect"
  /\ IF pc[t].a > Addrs(K(t)) \/ (Mistake = "first" /\ pc[t].a > 1)
     THEN Set(t, [at |-> "exc"]) /\ UNCHANGED <<fr, cur, busy, sent, open, alive, lock, left, bad, log>>
     ELSE \/ /\ bad > 0 /\ bad' = bad - 1
             /\ fr' = Tried(t, pc[t].a) /\ busy' = [busy EXCEPT ![K(t)] = t]
             /\ Set(t, [a |-> pc[t].a + 1]) /\ UNCHANGED <<cur, sent, open, alive, lock, left, log>>
          \/ /\ sent' = Append(sent, <<>>) /\ open' = open \cup {Len(sent) + 1} /\ cur' = [cur EXCEPT ![K(t)] = Len(sent) + 1]
             /\ fr' = [fr EXCEPT ![t].tried = @ \cup {pc[t].a}] /\ busy' = [busy EXCEPT ![K(t)] = t]
             /\ log' = [log EXCEPT ![K(t)] = Append(@, Len(sent) + 1)]
             /\ Set(t, [at |-> "send", conn |-> Len(sent) + 1]) /\ UNCHANGED <<alive, lock, left, bad>>
MSend(t) ==
  /\ pc[t].at = "send"
  /\ LET rest == SubSeq(fr[t].msg, pc[t].off + 1, Len(fr[t].msg)) c == pc[t].conn IN
     \/ \E n \in 1..Len(rest) :
          /\ n = Len(rest) \/ bad > 0
          /\ bad' = IF n = Len(rest) THEN bad ELSE bad - 1
          /\ SendEffect(t, c, SubSeq(rest, 1, n))
          /\ Set(t, [off |-> pc[t].off + n, at |-> IF n = Len(rest) \/ Mistake = "short" THEN "unlock" ELSE "send"])
          /\ UNCHANGED <<lock, left, log>>
     \/ /\ bad > 0 /\ bad' = bad - 1
        /\ fr' = [fr EXCEPT ![t].failed = TRUE, ![t].gave = c] /\ cur' = [cur EXCEPT ![K(t)] = 0] /\ busy' = [busy EXCEPT ![K(t)] = t]
        /\ Set(t, [at |-> IF Mistake = "retry" THEN "close2" ELSE IF Mistake = "keep" THEN "exc" ELSE "close"])
        /\ UNCHANGED <<sent, open, alive, lock, left, log>>
MClose(t) == /\ pc[t].at \in {"close", "close2"}
             /\ open' = open \ {pc[t].conn}
             /\ Set(t, [at |-> IF pc[t].at = "close" THEN "exc" ELSE "connect", off |-> 0, a |-> 1])
             /\ UNCHANGED <<fr, cur, busy, sent, alive, lock, left, bad, log>>
MRet(t) == /\ pc[t].at \in {"unlock", "exc"}
           /\ ReturnEffect(t)
           /\ lock' = [lock EXCEPT ![K(t)] = IF @ = t THEN 0 ELSE @]
           /\ Set(t, [at |-> "idle"]) /\ UNCHANGED <<left, bad, log>>
MDestroy == /\ left = 0 /\ \A t \in Threads : pc[t].at = "idle"
            /\ \E k \in Sinks : Destroy(k)
            /\ UNCHANGED <<pc, lock, left, bad, log>>
MCloseLast == /\ left = 0 /\ \E c \in open : Closes(c) /\ UNCHANGED <<pc, lock, left, bad, log>>

Step(t) == MLock(t) \/ MConnect(t) \/ MSend(t) \/ MClose(t) \/ MRet(t)
MNext == \/ \E k \in Sinks : MCreate(k)
         \/ MDestroy \/ MCloseLast
         \/ \E t \in Threads : MCall(t) \/ Step(t)
MSpec == MInit /\ [][MNext]_mvars /\ \A t \in Threads : WF_mvars(Step(t))

Seen ==
  \/ \E k \in Sinks : Create(k) \/ Destroy(k)
  \/ \E c \in 1..Len(sent) : Closes(c)
  \/ \E t \in Threads :
       \/ \E k \in Sinks : Call(t, k, Msg(t, left))
       \/ \E a \in 1..2 : ConnectFails(t, a) \/ Connects(t, a, Len(sent) + 1)
       \/ \E c \in 1..Len(sent) : SendFails(t, c, FALSE) \/ (fr[t].pc = "in" /\ \E n \in 1..2 : n <= Len(Rest(t)) /\ Send(t, c, SubSeq(Rest(t), 1, n)))
       \/ Return(t, "ok") /\ pc[t].at = "unlock"
       \/ Return(t, "sys") /\ pc[t].at = "exc"
Refines == [][Seen]_tvars

(* What a peer sees: whole records one after another; only the last one on a *)
(* connection may be cut, and then the connection is given up.               *)
Records == { Msg(1, n) : n \in 1..Budget }
RECURSIVE Whole(_)
Whole(b) == b = <<>> \/ \E m \in Records : \/ Prefix(m, b) /\ Whole(SubSeq(b, 3, Len(b)))
                                           \/ Len(b) < 2 /\ Prefix(b, m)
PeersSeeRecords == \A c \in 1..Len(sent) : Whole(sent[c])
EmitsEnd == \A t \in Threads : pc[t].at # "idle" ~> pc[t].at = "idle"
=============================================================================
