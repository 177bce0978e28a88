---------------------------- MODULE TraceLogger ----------------------------
(* Executions of real loggers, recorded by test doubles for filters,         *)
(* suppliers, handlers, formatters and sinks, against Logger.                *)
EXTENDS TraceBase, Logger

VARIABLES t0      \* time of the innermost unfinished calls, by thread (stack of times)
lvars == <<vars, tr, l, t0>>

TThreads == 1..8
TLoggers == 1..12
TConfigs == 1..12

TInit == TraceBaseInit /\ Init /\ t0 = [t \in TThreads |-> <<>>]

Quiet == UNCHANGED t0

WrapAttrs(ws) == Flat([i \in 1..Len(ws) |-> Cfg.wraps[ws[i]]])

(* The record as a handler, formatter or sink must see it. *)
RecOK(t, r) ==
  LET fr == Top(t) IN
    /\ r.sev = fr.q.sev /\ r.msg = fr.q.msg
    /\ r.attrs = fr.attrs
    /\ r.tid = "own" /\ r.lwp = "own"
ActiveOK(t, r) == /\ RecOK(t, r) /\ r.fmtd = Top(t).out /\ r.act = 1
                  /\ r.ts >= Head(t0[t]) /\ r.ts <= E.now
InactiveOK(t, r) == RecOK(t, r) /\ r.act = 0

TLog == /\ Is("log") /\ Consume
        /\ LogCall(E.t, E.lg, [sev |-> E.sev, msg |-> E.msg, attrs |-> E.attrs, lazy |-> E.lazy], WrapAttrs(E.ws))
        /\ t0' = [t0 EXCEPT ![E.t] = <<E.now>> \o @]
TFb == Is("fb") /\ Consume /\ Quiet /\ FilterBegin(E.t, E.f) /\ InactiveOK(E.t, E.rec)
(* Severity filters: the verdict is part of the specification. Severities    *)
(* and thresholds are given as limbs, most significant first.                *)
AtLeast(a, b) == \/ a[1] > b[1]
                 \/ a[1] = b[1] /\ a[2] > b[2]
                 \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] >= b[3]
VerdictOK(f, lim, res) == (Cfg.filters[f].kind = "sev" /\ res # "throw") =>
                            res = IF AtLeast(lim, Cfg.filters[f].lim) THEN "pass" ELSE "deny"
TFe == /\ Is("fe") /\ Consume /\ Quiet /\ FilterEnd(E.t, E.res)
       /\ VerdictOK(Top(E.t).f, E.lim, E.res)
TSb == Is("sb") /\ Consume /\ Quiet /\ SupplyBegin(E.t)
TSe == Is("se") /\ Consume /\ Quiet /\ SupplyEnd(E.t, E.res, E.val)
Errs == IF E.err = "" THEN {} ELSE {E.err}
THb == Is("hb") /\ Consume /\ Quiet /\ HandleBegin(E.t, E.c, E.h) /\ ActiveOK(E.t, E.rec)
THe == Is("he") /\ Consume /\ Quiet /\ HandleEnd(E.t, Errs)
TOb == Is("ob") /\ Consume /\ Quiet /\ FormatBegin(E.t, E.c, E.h) /\ ActiveOK(E.t, E.rec)
TOe == Is("oe") /\ Consume /\ Quiet /\ FormatEnd(E.t, Errs, E.txt)
TKb == Is("kb") /\ Consume /\ Quiet /\ SinkBegin(E.t, E.c, E.h, E.s) /\ ActiveOK(E.t, E.rec) /\ E.txt = Top(E.t).txt
TKe == Is("ke") /\ Consume /\ Quiet /\ SinkEnd(E.t, Errs)
TDiag == /\ Is("diag") /\ Consume /\ Quiet
         /\ \E t \in Threads : \E i \in 1..Len(stack[t]) : \E o \in stack[t][i].owed :
              E.err \in o[2] /\ Diag(t, i, o)
TRet == /\ Is("ret") /\ Consume
        /\ LogReturn(E.t, E.res)
        /\ t0' = [t0 EXCEPT ![E.t] = Tail(@)]
TNew == Is("new") /\ Consume /\ Quiet /\ New(E.t, E.lg, E.c, E.f, E.shape)
TSet == Is("set") /\ Consume /\ Quiet /\ SetCall(E.t, E.lg, E.f)
TAssign == Is("assign") /\ Consume /\ Quiet /\ AssignCall(E.t, E.lg, E.src)
TCret == Is("cret") /\ Consume /\ Quiet /\ ConfReturn(E.t)
TMove == Is("move") /\ Consume /\ Quiet /\ Move(E.t, E.lg, E.src)
TDel == Is("del") /\ Consume /\ Quiet /\ Delete(E.t, E.lg)
THd == Is("hd") /\ Consume /\ Quiet /\ HandlerDies(E.c, E.h)
TOpen == Is("open") /\ Consume /\ Quiet /\ ScopeOpen(E.t, E.lg, E.id, E.attrs)
TClose == Is("close") /\ Consume /\ Quiet /\ ScopeClose(E.t, E.id)
(* Everything constructed was destroyed in the end. *)
TEnd == /\ Is("end") /\ E.st = "ok" /\ Consume /\ Quiet /\ UNCHANGED vars
        /\ \A c \in Configs : gone[c] = 1..Len(shape[c])

Silent ==
  /\ More /\ Stay /\ Quiet
  /\ \E t \in Threads : Load(t) \/ CopyFilter(t) \/ SinksDone(t) \/ Release(t) \/ SetLoad(t) \/ SetApply(t) \/ AssignStore(t)

TNext == TLog \/ TFb \/ TFe \/ TSb \/ TSe \/ THb \/ THe \/ TOb \/ TOe \/ TKb \/ TKe \/ TDiag \/ TRet \/ TNew \/ TSet
           \/ TAssign \/ TCret \/ TMove \/ TDel \/ THd \/ TOpen \/ TClose \/ TEnd \/ Silent
TSpec == TInit /\ [][TNext]_lvars
=============================================================================
