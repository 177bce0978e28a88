------------------------------- MODULE MCTskv -------------------------------
(* Escaping is what makes lines readable again: for every one or two fields   *)
(* over an alphabet of all special characters, reading a line gives back the  *)
(* fields, a line contains no line breaks, and different fields give          *)
(* different lines (that follows from reading).                               *)
EXTENDS Tskv, TLC
CONSTANTS KeyLen, ValLen, Broken
VARIABLES k, v, k2
Alpha == {0, 7, 8, 9, 10, 11, 12, 13, 27, 61, 92, 48, 97, 110, 116, 195}
Special == {9, 10, 61, 92, 110}
Init == k = <<>> /\ v = <<>> /\ k2 \in {<<>>, <<61>>, <<9>>, <<92, 61>>}
Next == \/ Len(k) < KeyLen /\ (\E c \in Alpha : k' = Append(k, c)) /\ UNCHANGED <<v, k2>>
        \/ Len(v) < ValLen /\ (\E c \in (IF Len(k) < 2 THEN Alpha ELSE Special) : v' = Append(v, c)) /\ UNCHANGED <<k, k2>>
Spec == Init /\ [][Next]_<<k, v, k2>>
Fields1 == << [k |-> k, v |-> v], [k |-> k2, v |-> k] >>
Wrong(fs) == B("tskv") \o Cat([i \in 1..Len(fs) |-> <<Tab>> \o EscapeValue(fs[i].k) \o <<Equals>> \o EscapeValue(fs[i].v)])
Out == IF Broken THEN Wrong(Fields1) ELSE Line(Fields1)
RoundTrip == Read(Out) = [ok |-> TRUE, fields |-> Fields1]
OneLine == \A i \in 1..Len(Out) : Out[i] \notin {0, 10, 13}
=============================================================================
