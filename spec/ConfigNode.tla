----------------------------- MODULE ConfigNode -----------------------------
(* Nodes of a configuration tree: how they are reached, of which kinds they   *)
(* are and which accessors they answer.                                       *)
EXTENDS JsonText

Has(r, f) == f \in DOMAIN r
(* ---- paths ---------------------------------------------------------------------- *)
None == [ok |-> FALSE, v |-> [t |-> "n"], c |-> <<>>]
Some(v, c) == [ok |-> TRUE, v |-> v, c |-> c]
Slash == <<47>>
Member(o, k) == {i \in 1..Len(o.v) : o.v[i].k = k /\ \A j \in 1..(i - 1) : o.v[j].k # k}
Step(x, s) ==
  IF ~x.ok THEN None
  ELSE IF Has(s, "k") THEN
         IF x.v.t # "o" \/ Member(x.v, s.k) = {} THEN None
         ELSE Some(x.v.v[CHOOSE i \in Member(x.v, s.k) : TRUE].v, x.c \o Slash \o s.k)
  ELSE IF Has(s, "i") THEN
         IF x.v.t # "a" \/ Len(s.i) > 8 \/ DigitsNat(s.i) >= Len(x.v.v) THEN None
         ELSE Some(x.v.v[DigitsNat(s.i) + 1], x.c \o Slash \o Show(s.i))
  ELSE IF Has(s, "each") THEN         \* the n-th call of each, counted from 0
         IF x.v.t # "a" \/ s.each >= Len(x.v.v) THEN None ELSE Some(x.v.v[s.each + 1], x.c \o Slash \o ShowNat(s.each))
  ELSE IF x.v.t # "o" \/ s.map >= Len(x.v.v) THEN None ELSE Some(x.v.v[s.map + 1].v, x.c \o Slash \o x.v.v[s.map + 1].k)
RECURSIVE Walk(_, _)
Walk(x, p) == IF p = <<>> THEN x ELSE Walk(Step(x, Head(p)), Tail(p))

(* ---- reads ----------------------------------------------------------------------- *)
IntDigits(v) == v.d \o [i \in 1..Max0(v.e - Len(v.d)) |-> 0]
Whole2(v) == v.t = "#" /\ v.int /\ Less(IntDigits(v), TwoTo64) /\ (v.neg => ~Less(TwoTo63, IntDigits(v)))
IsS(v) == Whole2(v) /\ (v.neg \/ Less(IntDigits(v), TwoTo63))
IsU(v) == Whole2(v) /\ ~v.neg
IsD(v) == v.t = "#" /\ ~Whole2(v)
Kinds(v) == (IF v.t = "b" THEN <<"bool">> ELSE <<>>) \o (IF IsS(v) THEN <<"sint">> ELSE <<>>) \o (IF IsU(v) THEN <<"uint">> ELSE <<>>)
            \o (IF IsD(v) THEN <<"double">> ELSE <<>>) \o (IF v.t = "s" THEN <<"string">> ELSE <<>>)
            \o (IF v.t = "a" THEN <<"vector">> ELSE <<>>) \o (IF v.t = "o" THEN <<"object">> ELSE <<>>)
Actual(v) == CASE v.t = "n" -> "null" [] v.t = "b" -> "bool" [] v.t = "#" -> "number" [] v.t = "s" -> "string" [] v.t = "a" -> "array" [] v.t = "o" -> "object"
Expected(as) == CASE as = "bool" -> "bool" [] as = "sint" -> "int64" [] as = "uint" -> "uint64" [] as = "double" -> "double"
                  [] as = "string" -> "string" [] as = "each" -> "array" [] as = "each_map" -> "object"
Fits(v, as) == CASE as = "bool" -> v.t = "b" [] as = "sint" -> IsS(v) [] as = "uint" -> IsU(v) [] as = "double" -> IsD(v)
                 [] as = "string" -> v.t = "s" [] as = "each" -> v.t = "a" [] as = "each_map" -> v.t = "o" [] OTHER -> TRUE
=============================================================================
