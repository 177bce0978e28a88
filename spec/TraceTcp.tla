------------------------------ MODULE TraceTcp -----------------------------
(* Executions of real TCP sinks: system calls on their sockets (results      *)
(* real or decided by the program) and what real peers received.             *)
EXTENDS TraceBase, Tcp

lvars == <<tvars, tr, l>>
TThreads == 1..8
TSinks == 1..4
TAddrs(k) == Cfg.addrs[k]

TInit == TraceBaseInit /\ TcpInit
TNew == Is("new") /\ Consume /\ Create(E.k)
TCall == Is("call") /\ Consume /\ Call(E.t, E.k, E.msg)
TConn == Is("conn") /\ Consume /\ E.t \in Threads /\ (IF E.c = 0 THEN ConnectFails(E.t, E.a) ELSE Connects(E.t, E.a, E.c))
TSend == Is("send") /\ Consume /\ E.t \in Threads /\ Send(E.t, E.c, E.b)
TErr == Is("senderr") /\ Consume /\ E.t \in Threads /\ SendFails(E.t, E.c, E.soft = 1)
TClose == Is("close") /\ Consume /\ Closes(E.c)
TRet == Is("ret") /\ Consume /\ Return(E.t, E.res)
TDel == Is("del") /\ Consume /\ Destroy(E.k)
(* What the peer of a connection got: everything, unless it cut it short. *)
TPeer == /\ Is("peer") /\ Consume /\ UNCHANGED tvars
         /\ IF E.whole = 1 THEN E.b = sent[E.c] ELSE Prefix(E.b, sent[E.c])
TEnd == /\ Is("end") /\ E.st = "ok" /\ Consume /\ UNCHANGED tvars
        /\ alive = {} /\ open = {} /\ \A t \in Threads : fr[t].pc = "idle"
Silent == More /\ Stay /\ \E t \in Threads : GiveUp(t)
TNext == TNew \/ TCall \/ TConn \/ TSend \/ TErr \/ TClose \/ TRet \/ TDel \/ TPeer \/ TEnd \/ Silent
TSpec == TInit /\ [][TNext]_lvars
=============================================================================
