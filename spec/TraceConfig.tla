---------------------------- MODULE TraceConfig ----------------------------
(* Reading JSON configurations: documents (valid or not) and reads through    *)
(* paths of keys, indices and iterations, by every accessor.                  *)
EXTENDS TraceBase, ConfigNode
VARIABLES doc, n
Init == TraceBaseInit /\ doc = Fail /\ n = 0

(* ---- documents ----------------------------------------------------------------- *)
(* Nested arrays and objects in turn, too deep to be read here: the text is known. *)
Deep == Has(Cfg, "deep")
Prefix == B("parse error at offset ")
Parsed == /\ Is("parse") /\ Consume /\ n = 0
          /\ doc' = IF Deep THEN Done(1, [t |-> "n"]) ELSE ReadConfig(Cfg.doc)
          /\ IF doc'.ok THEN E.st = "ok"
             ELSE /\ E.st = "invalid_argument"
                  \* Offset and cause are those the JSON library reports for this document.
                  /\ \E k \in DOMAIN E.lib : E.what = Prefix \o E.lib[k].at \o <<58, 32>> \o E.lib[k].why
          /\ n' = 1

(* ---- reads ----------------------------------------------------------------------- *)
NumberText(s) == LET x == ReadNumber(s, 1) IN IF x.ok /\ x.i = Len(s) + 1 THEN x.v ELSE [neg |-> FALSE, d |-> <<0>>, e |-> 0]
(* Doubles: equal in the first 12 or 13 digits (one of them is not at a boundary). *)
Short(x, m) == IF Len(x.d) <= m THEN [neg |-> x.neg, d |-> x.d, e |-> x.e] ELSE RoundTo(x, m)
Close(x, y) == \E k \in {12, 13} : Short(x, k) = Short(y, k)
(* x: what was dumped; v: a tree. *)
RECURSIVE Like(_, _)
Like(x, v) ==
  /\ x.is = Kinds(v)
  /\ CASE v.t = "b" -> x.v = v.v
       [] v.t = "s" -> x.v = v.v
       [] v.t = "#" -> IF Whole2(v) THEN LET y == NumberText(x.v) IN y.neg = v.neg /\ y.d = v.d /\ y.e = v.e
                       ELSE Close(NumberText(x.v), v)
       [] v.t = "a" -> Len(x.v) = Len(v.v) /\ \A i \in 1..Len(x.v) : Like(x.v[i], v.v[i])
       [] v.t = "o" -> Len(x.v) = Len(v.v) /\ \A i \in 1..Len(x.v) : x.v[i].k = v.v[i].k /\ Like(x.v[i].v, v.v[i].v)
       [] OTHER -> TRUE
Read ==
  /\ Is("read") /\ Consume /\ doc.ok /\ n >= 1
  /\ LET op == Cfg.ops[n]
         x == Walk(Some(doc.v, <<>>), op.path)
     IN IF ~x.ok THEN E.st = "none"
        ELSE IF ~Fits(x.v, op.as) THEN
          /\ E.st = "mismatch"
          /\ E.cursor = IF x.c = <<>> THEN Slash ELSE x.c
          /\ E.expected = Expected(op.as) /\ E.actual = Actual(x.v)
        ELSE E.st = "ok" /\ Like(E.v, x.v)
  /\ n' = n + 1 /\ UNCHANGED doc
(* At the bottom of a deep document stands the number 42. *)
Bottom == /\ Is("bottom") /\ Consume /\ doc.ok /\ Deep /\ E.st = "ok" /\ E.depth = Cfg.deep /\ E.v = 42
          /\ n' = n + 1 /\ UNCHANGED doc
End == /\ Is("end") /\ Consume /\ E.st = "ok"
       /\ n = IF ~doc.ok THEN 1 ELSE IF Deep THEN 2 ELSE Len(Cfg.ops) + 1
       /\ UNCHANGED <<doc, n>>
Spec == Init /\ [][Parsed \/ Read \/ Bottom \/ End]_<<doc, n, tr, l>>
=============================================================================
