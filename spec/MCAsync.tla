------------------------------ MODULE MCAsync ------------------------------
EXTENDS AsyncSink
C(cap, policy, fails, ff, hide) == [cap |-> cap, policy |-> policy, fails |-> fails, flagFirst |-> ff, hide |-> hide]
GoodConfigs == { C(2, pol, f, TRUE, TRUE) : pol \in {"drop", "wait"}, f \in SUBSET {2} }
GoodConfigs4 == { C(c, pol, f, TRUE, TRUE) : c \in {2, 4}, pol \in {"drop", "wait"}, f \in SUBSET {1, 3} }
LateFlagConfigs == { C(2, "wait", {}, FALSE, TRUE) }
NoHideConfigs == { C(2, "wait", {1}, TRUE, FALSE) }
P2 == {1, 2}
P1 == {1}
R2 == 1..2
R3 == 1..3
R4 == 1..4
R5 == 1..5
=============================================================================
