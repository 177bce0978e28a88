----------------------------- MODULE TraceJson -----------------------------
(* JSON formatter: what real formatters write is one JSON document (and a    *)
(* line feed, if asked for), whose tree is the one that the configuration    *)
(* and the record ask for.                                                   *)
EXTENDS TraceBase, JsonText
VARIABLES n
Has(r, f) == f \in DOMAIN r
Get(f, default) == IF Has(Cfg, f) THEN Cfg[f] ELSE default
Conf == [ routes |-> Get("routes", <<>>), rest |-> Get("rest", <<>>), rename |-> Get("rename", <<>>), format |-> Get("format", <<>>),
          map |-> Get("map", <<>>), stamp |-> Get("stamp", <<>>), unique |-> Get("unique", FALSE) ]
NewLine == Get("newline", FALSE)
Flatten(ls) == LET RECURSIVE G(_)
                   G(x) == IF x = <<>> THEN <<>> ELSE Head(x) \o G(Tail(x))
               IN G(ls)
Record(r) == [ message |-> IF Has(r, "f") THEN r.f ELSE r.m, sev |-> r.sev, attrs |-> Flatten(r.a), t |-> r.t,
               pid |-> Ev[1].pid, tid |-> E.tid, lwp |-> E.lwp ]
Init == TraceBaseInit /\ n = 0
Made == /\ Is("made") /\ Consume /\ n = 0
        /\ CASE ~ValidRoutes(Conf) -> E.st = "invalid_argument"
             [] ValidRoutes(Conf) /\ SpareRoutes(Conf) -> E.st = "ok"
             [] OTHER -> E.st \in {"ok", "invalid_argument"}
        /\ n' = IF E.st = "ok" THEN 1 ELSE Len(Cfg.recs) + 1
Body == IF NewLine THEN SubSeq(E.out, 1, Len(E.out) - 1) ELSE E.out
Formatted == /\ Is("fmt") /\ Consume /\ n >= 1 /\ n <= Len(Cfg.recs)
             /\ LET w == Tree(Conf, Record(Cfg.recs[n]))
                    x == ReadJson(Body)
                IN IF ~w.ok THEN E.st # "ok"
                   ELSE /\ E.st = "ok"
                        /\ (NewLine => E.out # <<>> /\ E.out[Len(E.out)] = LF)
                        /\ (Body # <<>> /\ Body[Len(Body)] # LF)
                        /\ x.ok /\ Same(x.v, w.v)
             /\ n' = n + 1
End == Is("end") /\ Consume /\ E.st = "ok" /\ n = Len(Cfg.recs) + 1 /\ UNCHANGED n
Spec == Init /\ [][Made \/ Formatted \/ End]_<<n, tr, l>>
=============================================================================
