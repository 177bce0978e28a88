---------------------------- MODULE TraceString ----------------------------
(* String formatter: executions of real formatters against Pattern.tla.      *)
(* "made"/"fmt": one formatter and the records it formats; "pat": a pattern  *)
(* of its own, tried on the first record.                                    *)
EXTENDS TraceBase, Pattern

VARIABLES toks, n
svars == <<toks, n, tr, l>>

Has(r, f) == f \in DOMAIN r
Map == IF Has(Cfg, "map") THEN Cfg.map ELSE <<>>
Zone == IF Has(Cfg, "zone") THEN Cfg.zone ELSE [Utc EXCEPT !.name = B("UTC")]
Proc == IF Has(Cfg, "proc") THEN Cfg.proc ELSE B("drv_format")
Record(r, pid, lwp, tid, thr) ==
  [ message |-> IF Has(r, "f") THEN r.f ELSE r.m, sev |-> r.sev, attrs |-> Flat(r.a),
    pid |-> pid, lwp |-> lwp, tid |-> tid, proc |-> Proc, thr |-> thr, t |-> r.t ]

(* What is said about a pattern: nothing, if it asks strftime for what it does *)
(* not document, or for what cppformat does oddly (see Fmt.tla).               *)
Odd(f, v) == v.t = "d" /\ Len(f) >= 2 /\ f[2] = 60 /\ f[1] # 32
Settled(t, r) ==
  CASE t.k = "ts" -> t.num \/ Specified(t.p, 1)
    [] t.k = "attr" -> \A i \in 1..Len(r.attrs) : ~(r.attrs[i].k = t.name /\ Odd(t.f, r.attrs[i].v))
    [] t.k = "opt" -> t.sure /\ ~Odd(t.f, t.def) /\ \A i \in 1..Len(r.attrs) : ~(r.attrs[i].k = t.name /\ Odd(t.f, r.attrs[i].v))
    [] OTHER -> TRUE
AsPrinted(ts, r, st, out) ==
  (\A i \in 1..Len(ts) : Settled(ts[i], r)) =>
    LET w == Written(ts, r, Zone, Map) IN IF w.ok THEN st = "ok" /\ out = w.s ELSE st # "ok"

Init == TraceBaseInit /\ toks = [ok |-> FALSE, toks |-> <<>>] /\ n = 1
Made == /\ Is("made") /\ Consume /\ n = 1
        /\ toks' = Parse(Cfg.pattern)
        /\ (E.st = "ok") = toks'.ok
        /\ UNCHANGED n
(* n: formatted so far, in order; records formatted by concurrent threads say which they are. *)
Formatted == /\ Is("fmt") /\ Consume /\ ~Has(E, "r")
             /\ toks.ok
             /\ AsPrinted(toks.toks, Record(Cfg.recs[n], Ev[1].pid, E.lwp, E.tid, E.thr), E.st, E.out)
             /\ IF Has(Cfg.recs[n], "thr") THEN E.thr = Cfg.recs[n].thr ELSE TRUE
             /\ n' = n + 1 /\ UNCHANGED toks
Concurrent == /\ Is("fmt") /\ Consume /\ Has(E, "r")
              /\ toks.ok
              /\ AsPrinted(toks.toks, Record(Cfg.recs[E.r], Ev[1].pid, E.lwp, E.tid, E.thr), E.st, E.out)
              /\ n' = n + 1 /\ UNCHANGED toks
Refused(st) == Len(st) >= 4 /\ SubSeq(st, 1, 4) = "new:"
Pat == /\ Is("pat") /\ Consume
       /\ LET p == Parse(Cfg.patterns[n]) IN
          IF ~p.ok THEN Refused(E.st)
          ELSE ~Refused(E.st) /\ AsPrinted(p.toks, Record(Cfg.recs[1], E.pid, E.lwp, E.tid, B("drv_format")), E.st, E.out)
       /\ n' = n + 1 /\ UNCHANGED toks
End == /\ Is("end") /\ Consume /\ E.st = "ok"
       /\ IF Cfg.kind = "patterns" THEN n = Len(Cfg.patterns) + 1 ELSE toks.ok => n >= Len(Cfg.recs) + 1
       /\ UNCHANGED <<toks, n>>
Spec == Init /\ [][Made \/ Formatted \/ Concurrent \/ Pat \/ End]_svars
=============================================================================
