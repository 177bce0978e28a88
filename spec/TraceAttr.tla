----------------------------- MODULE TraceAttr -----------------------------
(* Programs over attribute values and views, recorded from the real ones.     *)
EXTENDS TraceBase
CONSTANTS Cells, Views
VARIABLES val, ver, view
A == INSTANCE Attr
Kind == [nil |-> "nil", default |-> "nil", bool |-> "bool", char |-> "sint", schar |-> "sint", short |-> "sint", int |-> "sint", long |-> "sint", llong |-> "sint",
         uchar |-> "uint", ushort |-> "uint", uint |-> "uint", ulong |-> "uint", ullong |-> "uint",
         float |-> "dbl", double |-> "dbl", str |-> "str", sv |-> "str", lit |-> "str", fn |-> "fn"]
Content(op) == [t |-> Kind[op.ctor], c |-> op.v]
Init == TraceBaseInit /\ A!Init0
Op == Cfg.ops[l]
Step(name) == l <= Len(Cfg.ops) /\ l <= Len(Ev) /\ Op.op = name /\ Consume
Done == E.e = "done" /\ E.st = "ok"
(* Exactly one accessor and one overload answer; the others refuse (owned  *)
(* functions can be neither made nor read in public).                          *)
ReadsAs(x, n) == /\ E.e = "read" /\ E.visit = <<x.t, x.c>> /\ E.get = << <<x.t, x.c>> >> /\ E.bad = n
Set == Step("set") /\ Done /\ A!Set(Op.c, Content(Op))
Copy == Step("copy") /\ Done /\ A!Copy(Op.c, Op.from)
Move == Step("move") /\ Done /\ A!Move(Op.c, Op.from)
Look == Step("look") /\ Done /\ A!Look(Op.w, Op.c)
SetView == Step("vset") /\ Done /\ A!SetView(Op.w, Content(Op), l)
CopyView == Step("vcopy") /\ Done /\ A!CopyView(Op.w, Op.from)
Read == Step("read") /\ val[Op.c] # A!Moved /\ ReadsAs(val[Op.c], 5) /\ UNCHANGED <<val, ver, view>>
ReadView == Step("vread") /\ A!Valid(view[Op.w]) /\ ReadsAs(A!Deref(view[Op.w]), 6) /\ UNCHANGED <<val, ver, view>>
Compare == /\ Step("eq") /\ A!Valid(view[Op.w]) /\ A!Valid(view[Op.x]) /\ E.e = "eq"
           /\ E.eq = A!Equal(view[Op.w], view[Op.x]) /\ E.ne = ~E.eq
           /\ UNCHANGED <<val, ver, view>>
End == Is("end") /\ Consume /\ E.st = "ok" /\ l = Len(Cfg.ops) + 1 /\ UNCHANGED <<val, ver, view>>
Spec == Init /\ [][Set \/ Copy \/ Move \/ Look \/ SetView \/ CopyView \/ Read \/ ReadView \/ Compare \/ End]_<<val, ver, view, tr, l>>
=============================================================================
