------------------------ MODULE TraceAsyncConstruct ------------------------
(* Which ways of constructing an asynchronous sink succeed.                  *)
EXTENDS TraceBase, Integers

Pow2(n) == 2 ^ n

(* factor 2..20, policy drop or wait *)
Expected(e) ==
  IF e.policy \notin {"drop", "wait"} THEN [res |-> "invalid_argument", cap |-> 0]
  ELSE IF e.factor \notin 2..20 THEN [res |-> "invalid_argument", cap |-> 0]
  ELSE [res |-> "ok", cap |-> Pow2(e.factor)]

Step == /\ Is("new") /\ Consume
        /\ E.res = Expected(E).res
        /\ E.cap \in {Expected(E).cap, 0} /\ (E.res = "ok" /\ E.hascap = 1 => E.cap = Expected(E).cap)
End == Is("end") /\ E.st = "ok" /\ Consume
Spec == TraceBaseInit /\ [][Step \/ End]_<<tr, l>>
=============================================================================
