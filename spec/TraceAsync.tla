---------------------------- MODULE TraceAsync ----------------------------
(* Executions of the real asynchronous sink, recorded at its API and at the  *)
(* wrapped sink, against AsyncSink.                                          *)
EXTENDS TraceBase, AsyncSink

VARIABLE stamp     \* timestamp, thread and lwp of each record as known to its caller
tvars == <<vars, tr, l, stamp>>

TProducers == 1..8

TInit ==
  /\ TraceBaseInit
  /\ InitWith([cap |-> Cfg.cap, policy |-> Cfg.policy, fails |-> Range(Cfg.fails),
               flagFirst |-> TRUE, hide |-> TRUE])
  /\ stamp = <<>>

(* A record survives as: same fields, its attribute lists joined, lazy       *)
(* attributes turned into their text.                                        *)
OwnedAttr(a) == IF a[2] = "fn" THEN <<a[1], "str", a[3]>> ELSE <<a[1], a[2], a[3]>>
RECURSIVE Joined(_)
Joined(ls) == IF ls = <<>> THEN <<>>
              ELSE [i \in 1..Len(Head(ls)) |-> OwnedAttr(Head(ls)[i])] \o Joined(Tail(ls))
Same(a, b) == /\ a.sev = b.sev /\ a.msg = b.msg /\ a.fmtd = b.fmtd /\ a.text = b.text
              /\ Joined(a.attrs) = Joined(b.attrs)

NoEvent == Stay /\ UNCHANGED stamp

TCall == /\ Is("call") /\ Consume
         /\ Call(E.t, E.v)
         /\ stamp' = (E.v :> <<E.ts, E.tid, E.lwp>>) @@ stamp
TRet == /\ Is("ret") /\ Consume /\ UNCHANGED stamp
        /\ ppc[E.t] = (IF E.res = "ok" THEN "done" ELSE "threw")
        /\ Return(E.t)
Throws(v) == \E i \in 1..Len(Cfg.recs[v].attrs) : \E j \in 1..Len(Cfg.recs[v].attrs[i]) :
                Cfg.recs[v].attrs[i][j][2] = "fnthrow"
(* The caller blocks inside emit: only allowed when there was no room. *)
TBlk == /\ Is("blk") /\ Consume /\ UNCHANGED stamp
        /\ conf.policy = "wait"
        /\ ppc[E.t] \in {"try", "full"} /\ (full[E.t] \/ Len(q) = conf.cap)
        /\ full' = [full EXCEPT ![E.t] = Len(q) = conf.cap]
        /\ UNCHANGED <<conf, ppc, pcur, q, accepted, dropped, stopped, cvars, wrapped, dpc>>
TWb == /\ Is("wb") /\ Consume /\ UNCHANGED stamp
       /\ WriteBegin
       /\ Same(E.rec, Cfg.recs[chand])
       /\ <<E.ts, E.tid, E.lwp>> = stamp[chand]
TWe == /\ Is("we") /\ Consume /\ UNCHANGED stamp /\ WriteEnd(E.ok = "ok")
TAwaited == /\ Is("awaited") /\ Consume /\ UNCHANGED <<stamp, vars>> /\ Len(written) >= E.n
TDcall == Is("dcall") /\ Consume /\ UNCHANGED stamp /\ DestroyCall
TWdtor == Is("wdtor") /\ Consume /\ UNCHANGED stamp /\ FreeWrapped
TDret == Is("dret") /\ Consume /\ UNCHANGED stamp /\ DestroyReturn
TEnd == Is("end") /\ E.st = "ok" /\ dpc = "done" /\ Consume /\ UNCHANGED <<stamp, vars>>

Silent ==
  /\ More /\ NoEvent
  /\ \/ \E p \in Producers :
          \/ ppc[p] = "try" /\ Throws(pcur[p]) /\ CopyFails(p)
          \/ ppc[p] = "try" /\ ~Throws(pcur[p]) /\ (Enqueue(p) \/ FindFull(p))
          \/ Drop(p) \/ Retry(p)
     \/ ReadFlag \/ Dequeue \/ Empty \/ Sleep
     \/ SetFlag \/ Join

TNext == TCall \/ TRet \/ TBlk \/ TWb \/ TWe \/ TAwaited \/ TDcall \/ TWdtor \/ TDret \/ TEnd \/ Silent
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
