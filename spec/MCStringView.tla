---------------------------- MODULE MCStringView ----------------------------
(* All histories of at most Depth operations over short buffers.             *)
EXTENDS StringView
CONSTANTS Depth
VARIABLES d
Texts == {<<>>, <<0>>, <<97, 200>>, <<200>>, <<97, 97>>}
MInit == Init /\ d = 0
MNext ==
  /\ d < Depth /\ d' = d + 1
  /\ \E s \in Slots :
       \/ \E x \in Texts : Make(s, x)
       \/ \E b \in 1..Len(mem), n \in 0..2 : Again(s, b, n)
       \/ Default(s)
       \/ \E t \in Slots : Copy(s, t)
       \/ \E t \in Slots, pos \in {-1, 0, 1, 2, 3}, count \in {-1, 0, 1, 2} : Substr(s, t, pos, count)
       \/ \E b \in 1..Len(mem), i \in 1..2, v \in {97, 200} : Poke(b, i, v)
=============================================================================
