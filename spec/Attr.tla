-------------------------------- MODULE Attr --------------------------------
(* Attribute values: cells that own a value of one of seven kinds, and views *)
(* of them.  Small values are copied into a view; of strings and functions a *)
(* view refers to the owner, and lasts until the owner changes.              *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Cells, Views
VARIABLES val,    \* cell -> [t, c] or Moved
          ver,    \* cell -> how often it changed
          view    \* view -> what it holds
attrVars == <<val, ver, view>>

Kinds == {"nil", "bool", "sint", "uint", "dbl", "str", "fn"}
Moved == [t |-> "moved", c |-> ""]
Nil == [t |-> "nil", c |-> ""]
ByRef(x) == x.t \in {"str", "fn"}

(* Views: a content of their own (of text and objects elsewhere, told apart by id), or a reference. *)
Own(x, id) == [ref |-> 0, at |-> 0, x |-> x, id |-> id]
Ref(i) == [ref |-> i, at |-> ver[i], x |-> Nil, id |-> 0]
Deref(w) == IF w.ref = 0 THEN w.x ELSE val[w.ref]
Valid(w) == IF w.ref = 0 THEN TRUE ELSE w.at = ver[w.ref]
Object(w) == IF w.ref = 0 THEN <<"obj", w.id>> ELSE <<"cell", w.ref>>

(* Doubles are given by their bits. *)
Zeros == {"0", "9223372036854775808"}
NaNs == {"9221120237041090560", "18444492273895866368"}
Equal(a, b) ==
  LET x == Deref(a) y == Deref(b) IN
  /\ x.t = y.t
  /\ CASE x.t = "dbl" -> x.c \notin NaNs /\ (x.c = y.c \/ {x.c, y.c} \subseteq Zeros)
       [] x.t = "fn" -> Object(a) = Object(b)
       [] OTHER -> x.c = y.c

Init0 == /\ val = [i \in Cells |-> Nil] /\ ver = [i \in Cells |-> 0]
         /\ view = [k \in Views |-> Own(Nil, 0)]
Bump(S) == ver' = [i \in Cells |-> IF i \in S THEN ver[i] + 1 ELSE ver[i]]
Set(i, x) == val' = [val EXCEPT ![i] = x] /\ Bump({i}) /\ UNCHANGED view
Copy(i, j) == /\ val[j] # Moved
              /\ val' = [val EXCEPT ![i] = val[j]]
              /\ Bump({i}) /\ UNCHANGED view
(* What remains in a moved value is not specified, except that moving to itself changes nothing. *)
Move(i, j) == /\ val[j] # Moved
              /\ val' = IF i = j THEN val ELSE [val EXCEPT ![i] = val[j], ![j] = Moved]
              /\ Bump({i, j}) /\ UNCHANGED view
Look(k, i) == /\ val[i] # Moved
              /\ view' = [view EXCEPT ![k] = IF ByRef(val[i]) THEN Ref(i) ELSE Own(val[i], 0)]
              /\ UNCHANGED <<val, ver>>
SetView(k, x, id) == view' = [view EXCEPT ![k] = Own(x, id)] /\ UNCHANGED <<val, ver>>
CopyView(k, m) == Valid(view[m]) /\ view' = [view EXCEPT ![k] = view[m]] /\ UNCHANGED <<val, ver>>
=============================================================================
