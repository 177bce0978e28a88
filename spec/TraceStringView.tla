-------------------------- MODULE TraceStringView ---------------------------
(* Recorded programs of string views, checked against StringView.            *)
EXTENDS TraceBase, StringView
tvars == <<tr, l, mem, view, signed>>
TInit == TraceBaseInit /\ Init

O == Cfg.ops[l]
Done(st) == E.e = "done" /\ E.st = st
Fine == Done("ok")
Looked(s) == E.e = "read" /\ E.size = view[s].n /\ E.bytes = Bytes(s) /\ E.str = Bytes(s) /\ E.out = Bytes(s)
             /\ (view[s].n > 0 => E.buf = view[s].buf /\ E.off = view[s].off)
Same == UNCHANGED <<mem, view, signed>>
Step ==
  /\ l <= Len(Cfg.ops)
  /\ CASE O.op = "make" -> Fine /\ Make(O.s, O.v)
       [] O.op = "again" -> Fine /\ Again(O.s, O.b, O.n)
       [] O.op = "default" -> Fine /\ Default(O.s)
       [] O.op = "copy" -> Fine /\ Copy(O.s, O.t)
       [] O.op = "substr" -> Done(IF OutOfRange(view[O.t], O.pos) THEN "out_of_range" ELSE "ok") /\ Substr(O.s, O.t, O.pos, O.count)
       [] O.op = "poke" -> Fine /\ Poke(O.b, O.i + 1, O.v)
       [] O.op = "read" -> Looked(O.s) /\ Same
       [] O.op = "at" -> (LET a == At(view[O.s], O.i) IN
                            IF a.st = "ok" THEN E.e = "at" /\ E.v = a.v ELSE Done("out_of_range")) /\ Same
       [] O.op = "cmp" -> /\ E.e = "cmp"
                          /\ E.eq = Equal(view[O.s], view[O.t])
                          /\ E.es = E.eq /\ E.se = E.eq      \* against strings of the same content
                          /\ E.lt = Less(view[O.s], view[O.t])
                          /\ E.gt = Less(view[O.t], view[O.s])
                          /\ Same
End == /\ l = Len(Cfg.ops) + 1 /\ Is("end") /\ E.st = "ok" /\ Same
TNext == More /\ (Step \/ End) /\ Consume
Spec == TInit /\ [][TNext]_tvars
=============================================================================
