------------------------------ MODULE ScalarsMC -----------------------------
(* Go scalars to values and back, with integers of W bits standing for the  *)
(* 64-bit ones.  Widening must not change the number, and coming back gives *)
(* the widest type of the same kind.                                        *)
EXTENDS Integers
CONSTANTS W, Broken
VARIABLES ty, n
IMin == -(2 ^ (W - 1))
IMax == 2 ^ (W - 1) - 1
UMax == 2 ^ W - 1
\* two's complement
ToInt(x) == IF x > IMax THEN x - 2 ^ W ELSE x
ToUint(x) == IF x < 0 THEN x + 2 ^ W ELSE x
Range == [int |-> IMin..IMax, int8 |-> -2..1, uint |-> 0..UMax, uint8 |-> 0..3]
Signed == {"int", "int8"}
From(t, x) == IF t \in Signed THEN [k |-> "int", v |-> x]
              ELSE IF Broken = "viaint" THEN [k |-> "int", v |-> ToInt(x)]
              ELSE IF Broken = "narrow" THEN [k |-> "uint", v |-> x % 2 ^ (W - 1)]
              ELSE [k |-> "uint", v |-> x]
To(tv) == IF Broken = "unsigned" THEN [ty |-> "uint", v |-> ToUint(tv.v)] ELSE [ty |-> tv.k, v |-> tv.v]
Init == ty \in DOMAIN Range /\ n \in Range[ty]
Next == FALSE /\ UNCHANGED <<ty, n>>
Spec == Init /\ [][Next]_<<ty, n>>
RoundTrip == LET r == To(From(ty, n)) IN r.v = n /\ r.ty = (IF ty \in Signed THEN "int" ELSE "uint")
=============================================================================
