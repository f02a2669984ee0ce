------------------------------- MODULE Values -------------------------------
(* Values.  A value is [k |-> kind, s |-> canonical text, l |-> elements].  *)
(* The texts of two values of a kind are equal iff the values are: floating *)
(* point values by their number, decimals by their number, bytes by their   *)
(* bytes.  Values of different kinds are different.                         *)
EXTENDS Integers, Sequences, FiniteSets

Kinds == {"string", "int", "uint", "bool", "bytes", "float", "double", "decimal", "list",
          "any", "json", "jsonietf", "ascii", "proto", "nil"}
Same(a, b) == a = b

\* equality may be reported: both ways or not at all, and for the same value
Total(ab, ba) == ab \in BOOLEAN /\ ba \in BOOLEAN
Symmetric(ab, ba) == ab = ba
Sound(a, b, ab) == ab => Same(a, b)

\* what suppression of updates relies on besides: for primitive values and
\* lists of them equality is not missed either (not demanded: a missed
\* equality only costs a superfluous update)
RECURSIVE Primitive(_)
Primitive(a) == \/ a.k \in {"string", "int", "uint", "bool", "bytes", "float", "double", "decimal"}
                \/ a.k = "list" /\ \A i \in DOMAIN a.l : Primitive(a.l[i])
=============================================================================
