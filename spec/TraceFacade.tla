---------------------------- MODULE TraceFacade ----------------------------
(* Calls of the logger facade and the records that reached the handler.       *)
EXTENDS TraceBase, Facade, FiniteSets
VARIABLE n
Has(r, f) == f \in DOMAIN r
Init == TraceBaseInit /\ n = 1
Call == Cfg.calls[n]
(* Nothing is said about what cppformat does oddly. *)
RECURSIVE Contains(_, _)
Contains(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : StartsAt(s, i, p)
Settled(c) == ~Has(c, "unsure") /\ ~Contains(c.pat, B("00{"))
AsIs(c) == c.kind = "plain" \/ (c.args = <<>>)
Result(c) == IF AsIs(c) THEN [ok |-> TRUE, s |-> c.pat, uses |-> <<>>] ELSE Formatted(c.pat, c.args)
Streamed(c, w) == Cardinality({i \in DOMAIN w.uses : Has(c.args[w.uses[i]], "user")})
Attrs(c) == (IF Has(c, "attrs") THEN c.attrs ELSE <<>>) \o (IF Has(Cfg, "wrap") THEN Cfg.wrap ELSE <<>>)
Logged(c, w, r) == /\ r.fmt = w.s /\ r.sev = c.sev /\ r.attrs = Attrs(c)
                   /\ IF c.kind = "ct" THEN r.msg \in {<<>>, c.pat} ELSE r.msg = c.pat
(* A call made in the middle of another: by the handler of its record, or     *)
(* while an argument of a user's type is converted.                           *)
UsesUser(c, w) == \E i \in DOMAIN w.uses : Has(c.args[w.uses[i]], "user")
Happens(c, w) == Has(c, "inner") /\ (c.via = "handler" \/ UsesUser(c, w))
Nesting(c, w) ==
  LET i == c.inner v == Result(i) IN
  w.ok => IF v.ok THEN /\ E.st = "ok" /\ Len(E.recs) = 2
                       /\ Logged(i, v, E.recs[1]) /\ Logged(c, w, E.recs[2])
                       /\ E.streamed = Streamed(i, v) + Streamed(c, w)
          \* what goes wrong inside of a handler stays there
          ELSE E.st = (IF c.via = "handler" THEN "ok" ELSE "format_error") /\ E.recs = <<>>
Step == /\ Is("call") /\ Consume /\ n <= Len(Cfg.calls)
        /\ LET c == Call w == Result(c) IN
           IF Has(c, "deny") THEN E.st = "ok" /\ E.recs = <<>> /\ E.streamed = 0
           ELSE IF Happens(c, w) \/ (Has(c, "inner") /\ ~w.ok)
                THEN Settled(c) /\ Settled(c.inner) /\ Happens(c, w) => Nesting(c, w)
           ELSE Settled(c) => IF w.ok THEN E.st = "ok" /\ Len(E.recs) = 1 /\ Logged(c, w, E.recs[1]) /\ E.streamed = Streamed(c, w)
                              ELSE E.st = "format_error" /\ E.recs = <<>>
        /\ n' = n + 1
End == Is("end") /\ Consume /\ E.st = "ok" /\ n = Len(Cfg.calls) + 1 /\ UNCHANGED n
Spec == Init /\ [][Step \/ End]_<<n, tr, l>>
=============================================================================
