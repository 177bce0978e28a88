---------------------------- MODULE MCAttrSmall ----------------------------
EXTENDS MCAttr
Some == {[t |-> "sint", c |-> "1"], [t |-> "uint", c |-> "1"], [t |-> "str", c |-> "1"], [t |-> "fn", c |-> "1"],
         [t |-> "dbl", c |-> "0"], [t |-> "dbl", c |-> "9223372036854775808"], [t |-> "dbl", c |-> "9221120237041090560"]}
=============================================================================
