------------------------------ MODULE TraceDev -----------------------------
(* Executions of real development handlers on a recording stream buffer.     *)
EXTENDS TraceBase, Dev

lvars == <<dvars, tr, l>>
TThreads == 1..8
Flatten(ls) == LET RECURSIVE G(_)
                   G(x) == IF x = <<>> THEN <<>> ELSE Head(x) \o G(Tail(x))
               IN G(ls)
Has(r, f) == f \in DOMAIN r
Record(r) == [ message |-> IF Has(r, "f") THEN r.f ELSE r.m, sev |-> r.sev, attrs |-> Flatten(r.a), t |-> r.t, pid |-> E.pid, tid |-> E.tid ]

TInit == TraceBaseInit /\ DInit
TCall == Is("call") /\ Consume /\ Call(E.t, Block(Record(Cfg.recs[E.r]), Cfg.tty = 1))
TWrite == Is("w") /\ Consume /\ Write(E.t, E.b)
TFlush == Is("flush") /\ Consume /\ Flush(E.t)
TBreak == Is("break") /\ Consume /\ Break(E.t)
TRet == Is("ret") /\ Consume /\ Return(E.t, E.res)
TEnd == Is("end") /\ E.st = "ok" /\ Consume /\ UNCHANGED dvars /\ owner = 0 /\ \A t \in Threads : fr[t].pc = "idle"
TNext == TCall \/ TWrite \/ TFlush \/ TBreak \/ TRet \/ TEnd
TSpec == TInit /\ [][TNext]_lvars
=============================================================================
