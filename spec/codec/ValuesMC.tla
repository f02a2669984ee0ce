------------------------------ MODULE ValuesMC ------------------------------
(* Equality as it is computed, arm by arm, over a universe of values; and   *)
(* conversions of Go scalars of different widths (widths scaled down).      *)
EXTENDS Values, TLC, Json
CONSTANTS Gen, Depth, Broken
VARIABLES a, b, c

At(k, s) == [k |-> k, s |-> s, l |-> <<>>]
\* decimals are written digits/precision; "10/1" and "1/0" are one number
Atoms == {At("nil", ""), At("any", "x"), At("json", "1"), At("jsonietf", "1"), At("ascii", "1"), At("proto", "1")}
         \cup {At(k, s) : k \in {"int", "uint", "float", "double"}, s \in {"0", "1"}}
         \cup {At("string", s) : s \in {"", "0", "1", "true"}}
         \cup {At("bytes", s) : s \in {"", "1"}}
         \cup {At("bool", s) : s \in {"true", "false"}}
         \cup {At("decimal", s) : s \in {"0/0", "1/0", "10/1", "1/1"}}
Lists(S) == {[k |-> "list", s |-> "", l |-> e] : e \in UNION {[1..n -> S] : n \in 0..2}}
Small == {At("int", "1"), At("string", "1"), At("nil", ""), At("json", "1")}
Universe == Atoms \cup Lists(Small) \cup (IF Depth > 1 THEN Lists({At("int", "1")} \cup Lists({At("int", "1")})) ELSE {})

Number(d) == IF d = "10/1" THEN "1/0" ELSE d
RECURSIVE Canon(_)
Canon(v) == [k |-> v.k, s |-> IF v.k = "decimal" THEN Number(v.s) ELSE v.s, l |-> [i \in DOMAIN v.l |-> Canon(v.l[i])]]

Prims == {"string", "int", "uint", "bool", "bytes", "float", "double"}
RECURSIVE Eq(_, _)
Eq(x, y) ==
    CASE Broken = "numeric" /\ x.k \in {"int", "uint"} /\ y.k \in {"int", "uint"} -> x.s = y.s
      [] Broken = "default" /\ x.k = "double" -> x.s = (IF y.k = "double" THEN y.s ELSE "0")
      [] Broken = "text" /\ x.k # "list" -> x.s = y.s
      [] x.k \in Prims -> y.k = x.k /\ x.s = y.s
      [] x.k = "decimal" -> y.k = x.k /\ (x.s = y.s \/ (Broken = "digits" /\ {x.s, y.s} = {"1/0", "1/1"}))
      [] x.k = "list" ->
           /\ y.k = "list"
           /\ IF Broken = "prefix" THEN Len(x.l) <= Len(y.l)
              ELSE IF Broken = "zip" THEN TRUE ELSE Len(x.l) = Len(y.l)
           /\ \A i \in DOMAIN x.l : i \in DOMAIN y.l => Eq(x.l[i], y.l[i])
      [] OTHER -> FALSE

Init == /\ a \in Universe /\ b \in Universe /\ c = 0
        /\ IF Gen THEN PrintT("@@HIST " \o ToJson([a |-> a, b |-> b])) ELSE TRUE
Next == FALSE /\ UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>

InvSymmetric == Symmetric(Eq(a, b), Eq(b, a))
InvSound == Sound(Canon(a), Canon(b), Eq(a, b))
\* design: nothing primitive is reported changed when it is the same
InvComplete == Primitive(a) /\ a = b => Eq(a, b)
InvTransitive == Eq(a, b) => \A x \in Universe : Eq(b, x) => Eq(a, x)
=============================================================================
