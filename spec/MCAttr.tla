------------------------------- MODULE MCAttr -------------------------------
(* Views that are still valid denote what their owner held when they were     *)
(* made, through any sequence of changes, copies, moves and other views.      *)
EXTENDS Attr
CONSTANTS Contents, Depth, Broken
VARIABLES was, n      \* ghost: what each view was made of; steps
vars == <<attrVars, was, n>>
Init == Init0 /\ was = [k \in Views |-> Nil] /\ n = 0
Step == n < Depth /\ n' = n + 1
Next == /\ Step
        /\ \/ \E i \in Cells, x \in Contents :
                IF Broken THEN val' = [val EXCEPT ![i] = x] /\ UNCHANGED <<ver, view, was>>
                ELSE Set(i, x) /\ UNCHANGED was
           \/ \E i, j \in Cells : (Copy(i, j) \/ Move(i, j)) /\ UNCHANGED was
           \/ \E k \in Views, i \in Cells : Look(k, i) /\ was' = [was EXCEPT ![k] = val[i]]
           \/ \E k \in Views, x \in Contents : SetView(k, x, n) /\ was' = [was EXCEPT ![k] = x]
           \/ \E k, m \in Views : CopyView(k, m) /\ was' = [was EXCEPT ![k] = was[m]]
Spec == Init /\ [][Next]_vars
Faithful == \A k \in Views : Valid(view[k]) => Deref(view[k]) = was[k]
NeverMoved == \A k \in Views : Valid(view[k]) => Deref(view[k]) # Moved
(* Equality of views is an equivalence on everything but NaN, and finer than the kind. *)
Live == {k \in Views : Valid(view[k])}
Equivalence == \A a, b, c \in Live :
   /\ (Deref(view[a]).c \notin NaNs => Equal(view[a], view[a]))
   /\ (Equal(view[a], view[b]) <=> Equal(view[b], view[a]))
   /\ (Equal(view[a], view[b]) /\ Equal(view[b], view[c]) => Equal(view[a], view[c]))
   /\ (Equal(view[a], view[b]) => Deref(view[a]).t = Deref(view[b]).t)
=============================================================================
