----------------------------- MODULE TraceSyslog ---------------------------
(* Calls of openlog, syslog and closelog made by real sinks.                 *)
EXTENDS TraceBase, Syslog

lvars == <<svars, tr, l>>
TThreads == 1..8
TSinks == 1..8
TPriorities(k) == Cfg.prios[k]

(* What the log is told, and at an entry what the identity it points at      *)
(* reads then.                                                               *)
Right(x) == x.ident = Cfg.ident /\ x.opt = Cfg.opt /\ x.fac = Cfg.fac
Name(x) == IF Right(x) THEN "sinks" ELSE "other"

TInit == TraceBaseInit /\ SyslogInit
TNew == Is("new") /\ Consume /\ Construct(E.k)
TOpen == Is("openlog") /\ Consume /\ Open(Name(E))
TClose == Is("closelog") /\ Consume /\ Close
TCall == Is("call") /\ Consume /\ Call(E.t, E.k, E.sev, E.msg)
TEntry == Is("syslog") /\ Consume /\ E.t \in Threads /\ E.ident = Cfg.ident /\ Entry(E.t, E.prio, E.text)
TRet == Is("ret") /\ E.res = "ok" /\ Consume /\ Return(E.t)
TDel == Is("del") /\ Consume /\ Destruct(E.k)
TEnd == Is("end") /\ E.st = "ok" /\ Consume /\ UNCHANGED svars /\ live = {}
TNext == TNew \/ TOpen \/ TClose \/ TCall \/ TEntry \/ TRet \/ TDel \/ TEnd
TSpec == TInit /\ [][TNext]_lvars
=============================================================================
