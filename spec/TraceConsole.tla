---------------------------- MODULE TraceConsole ---------------------------
(* Executions of real console sinks on recording stream buffers.             *)
EXTENDS TraceBase, Console

lvars == <<cvars, tr, l>>
TThreads == 1..8
TSinks == 1..12
TSinkOf(k) == Cfg.sinks[k]
TTty(s) == Cfg.tty[s] = 1

TInit == TraceBaseInit /\ CInit
TCall == Is("call") /\ Consume /\ Call(E.t, E.k, E.sev, E.msg)
TWrite == Is("w") /\ Consume /\ Write(E.t, E.s, E.b)
TFlush == Is("flush") /\ Consume /\ Flush(E.t, E.s)
TBreak == Is("break") /\ Consume /\ Break(E.t, E.s)
TRet == Is("ret") /\ Consume /\ Return(E.t, E.res)
TEnd == Is("end") /\ E.st = "ok" /\ Consume /\ UNCHANGED cvars /\ owner = 0 /\ \A t \in Threads : fr[t].pc = "idle"
TNext == TCall \/ TWrite \/ TFlush \/ TBreak \/ TRet \/ TEnd
TSpec == TInit /\ [][TNext]_lvars
=============================================================================
