----------------------------- MODULE TraceTskv -----------------------------
(* TSKV formatter: lines of real formatters, read back, are the fields that   *)
(* the configuration and the record ask for, and nothing else.                *)
EXTENDS TraceBase, Tskv
VARIABLES n
Has(r, f) == f \in DOMAIN r
Get(f) == IF Has(Cfg, f) THEN Cfg[f] ELSE <<>>
Conf == [ create |-> Get("create"), rename |-> Get("rename"), remove |-> Get("remove"),
          times |-> [i \in 1..Len(Get("times")) |-> <<Cfg.times[i].name, Cfg.times[i].p, IF Has(Cfg.times[i], "gm") THEN Cfg.times[i].gm ELSE TRUE>>] ]
Zone == IF Has(Cfg, "zone") THEN Cfg.zone ELSE [Utc EXCEPT !.name = B("UTC")]
Flatten(ls) == LET RECURSIVE G(_)
                   G(x) == IF x = <<>> THEN <<>> ELSE Head(x) \o G(Tail(x))
               IN G(ls)
Record(r) == [ message |-> IF Has(r, "f") THEN r.f ELSE r.m, sev |-> r.sev, attrs |-> Flatten(r.a), t |-> r.t, pid |-> Ev[1].pid, tid |-> E.tid ]
Init == TraceBaseInit /\ n = 0
Made == Is("made") /\ Consume /\ n = 0 /\ E.st = "ok" /\ n' = 1
Formatted == /\ Is("fmt") /\ Consume /\ n >= 1
             /\ E.st = "ok"
             /\ Read(E.out) = [ok |-> TRUE, fields |-> TskvFields(Conf, Record(Cfg.recs[n]), Zone)]
             /\ n' = n + 1
End == Is("end") /\ Consume /\ E.st = "ok" /\ n = Len(Cfg.recs) + 1 /\ UNCHANGED n
Spec == Init /\ [][Made \/ Formatted \/ End]_<<n, tr, l>>
=============================================================================
