-------------------------------- MODULE Tcp --------------------------------
(* TCP sinks.  The first emit connects; the bytes of each record go out      *)
(* once, in order and together over the one connection, which is kept for    *)
(* the next.  When connecting or sending fails the emit fails and the        *)
(* connection is given up; the next emit makes a new one.                    *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Sinks,
          Addrs(_)       \* the number of addresses of a sink's host; 0: it cannot be resolved

VARIABLES fr,      \* per thread: the emit in progress
          cur,     \* per sink: its healthy connection, 0: none
          busy,    \* per sink: the thread that sends or connects, 0: none
          sent,    \* per connection: all bytes that went out over it
          open,    \* connections not closed yet
          alive    \* sinks that exist
tvars == <<fr, cur, busy, sent, open, alive>>

Idle == [pc |-> "idle"]
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

TcpInit == /\ fr = [t \in Threads |-> Idle]
           /\ cur = [k \in Sinks |-> 0] /\ busy = [k \in Sinks |-> 0]
           /\ sent = << >> /\ open = {} /\ alive = {}

Create(k) == k \notin alive /\ alive' = alive \cup {k} /\ UNCHANGED <<fr, cur, busy, sent, open>>

Call(t, k, msg) ==
  /\ fr[t].pc = "idle" /\ k \in alive
  /\ fr' = [fr EXCEPT ![t] = [pc |-> "in", k |-> k, msg |-> msg, off |-> 0, failed |-> FALSE, soft |-> FALSE, gave |-> 0, tried |-> {}]]
  /\ UNCHANGED <<cur, busy, sent, open, alive>>

Exhausted(t) == Addrs(fr[t].k) = 0
(* Nothing is left to do but to return. *)
Finished(t) == IF fr[t].pc # "in" THEN TRUE ELSE fr[t].failed \/ (~fr[t].soft /\ fr[t].off = Len(fr[t].msg)) \/ Exhausted(t)
Free(t) == IF busy[fr[t].k] \in {0, t} THEN TRUE ELSE Finished(busy[fr[t].k])
Mine(t) == fr[t].pc = "in" /\ ~fr[t].failed /\ Free(t)

(* An attempt to connect to one of the addresses. *)
MayConnect(t, a) ==
  /\ Mine(t) /\ cur[fr[t].k] = 0
  /\ a \in 1..Addrs(fr[t].k) /\ a \notin fr[t].tried
(* With the last of them the emit has failed. *)
Tried(t, a) == [fr EXCEPT ![t].tried = @ \cup {a}, ![t].failed = fr[t].tried \cup {a} = 1..Addrs(fr[t].k)]
ConnectFails(t, a) ==
  /\ MayConnect(t, a)
  /\ fr' = Tried(t, a)
  /\ busy' = [busy EXCEPT ![fr[t].k] = t]
  /\ UNCHANGED <<cur, sent, open, alive>>
Connects(t, a, c) ==
  /\ MayConnect(t, a)
  /\ c = Len(sent) + 1
  /\ sent' = Append(sent, <<>>) /\ open' = open \cup {c}
  /\ cur' = [cur EXCEPT ![fr[t].k] = c]
  /\ busy' = [busy EXCEPT ![fr[t].k] = t]
  /\ fr' = [fr EXCEPT ![t].tried = @ \cup {a}]
  /\ UNCHANGED alive

(* Bytes leave: the next ones of the caller's record, nothing else. *)
Rest(t) == SubSeq(fr[t].msg, fr[t].off + 1, Len(fr[t].msg))
MaySend(t, c, b) == Mine(t) /\ c # 0 /\ cur[fr[t].k] = c /\ Prefix(b, Rest(t))
SendEffect(t, c, b) ==
  /\ sent' = [sent EXCEPT ![c] = @ \o b]
  /\ fr' = [fr EXCEPT ![t].off = @ + Len(b), ![t].soft = FALSE]
  /\ busy' = [busy EXCEPT ![fr[t].k] = t]
  /\ UNCHANGED <<cur, open, alive>>
Send(t, c, b) == MaySend(t, c, b) /\ SendEffect(t, c, b)

(* A failed send.  After one that says "again" the emit may go on. *)
SendFails(t, c, soft) ==
  /\ MaySend(t, c, <<>>)
  /\ IF soft THEN fr' = [fr EXCEPT ![t].soft = TRUE] /\ UNCHANGED cur
     ELSE fr' = [fr EXCEPT ![t].failed = TRUE, ![t].soft = FALSE, ![t].gave = c] /\ cur' = [cur EXCEPT ![fr[t].k] = 0]
  /\ busy' = [busy EXCEPT ![fr[t].k] = t]
  /\ UNCHANGED <<sent, open, alive>>
(* Giving up after "again". *)
GiveUp(t) ==
  /\ Mine(t) /\ fr[t].soft
  /\ fr' = [fr EXCEPT ![t].failed = TRUE, ![t].soft = FALSE, ![t].gave = cur[fr[t].k]]
  /\ cur' = [cur EXCEPT ![fr[t].k] = 0]
  /\ UNCHANGED <<busy, sent, open, alive>>

(* Only connections that are given up are closed. *)
Closes(c) == /\ c \in open /\ \A k \in alive : cur[k] # c
             /\ open' = open \ {c} /\ UNCHANGED <<fr, cur, busy, sent, alive>>

MayReturn(t, res) ==
  /\ fr[t].pc = "in" /\ ~fr[t].soft
  /\ IF fr[t].failed \/ Exhausted(t)
     THEN res = "sys"
     ELSE res = "ok" /\ fr[t].off = Len(fr[t].msg)
  (* A connection that was given up is not left open. *)
  /\ fr[t].gave \notin open
ReturnEffect(t) ==
  /\ fr' = [fr EXCEPT ![t] = Idle]
  /\ busy' = [busy EXCEPT ![fr[t].k] = IF @ = t THEN 0 ELSE @]
  /\ UNCHANGED <<cur, sent, open, alive>>
Return(t, res) == MayReturn(t, res) /\ ReturnEffect(t)

Destroy(k) ==
  /\ k \in alive /\ \A t \in Threads : (IF fr[t].pc = "idle" THEN TRUE ELSE fr[t].k # k)
  /\ alive' = alive \ {k} /\ cur' = [cur EXCEPT ![k] = 0]
  /\ UNCHANGED <<fr, busy, sent, open>>
=============================================================================
