------------------------------ MODULE TraceUdp -----------------------------
(* Datagrams sent by real UDP sinks, and what a receiver gets.               *)
EXTENDS TraceBase, Udp

lvars == <<uvars, tr, l>>
TThreads == 1..8
TSinks == 1..4
TInit == TraceBaseInit /\ UdpInit
(* A host that cannot be resolved is refused when the sink is made. *)
TNew == Is("new") /\ Consume /\ Cfg.hosts[E.k] = 1 /\ Create(E.k)
TNoNew == Is("nonew") /\ Consume /\ Cfg.hosts[E.k] = 0 /\ E.what \in {"sys", "std"} /\ UNCHANGED uvars
TCall == Is("call") /\ Consume /\ Call(E.t, E.k, E.msg)
TSend == Is("dgram") /\ Consume /\ E.t \in Threads /\ E.k = fr[E.t].k /\ E.dest = 1 /\ Send(E.t, E.b)
TRefuse == Is("refused") /\ Consume /\ E.t \in Threads /\ IF E.soft = 2 THEN Stale(E.t) ELSE Refuse(E.t, E.soft = 1)
TRet == Is("ret") /\ Consume /\ Return(E.t, E.res)
TDel == Is("del") /\ Consume /\ Destroy(E.k)
(* All datagrams a receiver got while it was listening from the start. *)
TGot == Is("got") /\ Consume /\ UNCHANGED uvars /\ E.all = sent[E.k]
TEnd == Is("end") /\ E.st = "ok" /\ Consume /\ UNCHANGED uvars /\ alive = {}
TNext == TNew \/ TNoNew \/ TCall \/ TSend \/ TRefuse \/ TRet \/ TDel \/ TGot \/ TEnd
TSpec == TInit /\ [][TNext]_lvars
=============================================================================
