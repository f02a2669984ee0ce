------------------------------ MODULE PathTree ------------------------------
(* The path tree (package ctree) as a prefix-free map from paths to values. *)
(*                                                                          *)
(* Path elements are integers (the harness maps its strings to their rank   *)
(* in Go's string order, so that < on integers is the lexicographic order   *)
(* of elements); STAR is the rank of the wildcard "*".                      *)
EXTENDS Integers, Sequences, FiniteSets

STAR == 1          \* rank of "*"; 0 is the empty string

Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

ProperPrefix(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p

(* A stored path p is selected by the query q: q is consumed element by     *)
(* element, STAR standing for exactly one element, except that a trailing   *)
(* STAR, like the end of q, selects everything at or below.                 *)
RECURSIVE MatchAt(_, _, _)
MatchAt(q, p, i) ==
    IF i > Len(q) THEN TRUE
    ELSE IF i = Len(q) /\ q[i] = STAR THEN TRUE
    ELSE /\ i <= Len(p)
         /\ (q[i] = STAR \/ q[i] = p[i])
         /\ MatchAt(q, p, i + 1)
Match(q, p) == MatchAt(q, p, 1)

(* ---- operations on a map m : path -> value (a function) ---------------- *)
EmptyTree == <<>>           \* the function with the empty domain

Clash(m, p) == \E q \in DOMAIN m : ProperPrefix(q, p) \/ ProperPrefix(p, q)

CanAdd(m, p) == ~Clash(m, p)

Put(m, p, v) == [q \in DOMAIN m \cup {p} |-> IF q = p THEN v ELSE m[q]]

Sel(m, q) == {p \in DOMAIN m : Match(q, p)}

Without(m, S) == [q \in DOMAIN m \ S |-> m[q]]

IsLeafAt(m, p) == p \in DOMAIN m

IsBranchAt(m, p) == \E q \in DOMAIN m : ProperPrefix(p, q)

ChildrenAt(m, p) == {q[Len(p) + 1] : q \in {r \in DOMAIN m : ProperPrefix(p, r)}}

(* Element-wise lexicographic order.                                        *)
RECURSIVE LexLessAt(_, _, _)
LexLessAt(p, q, i) ==
    IF i > Len(p) THEN i <= Len(q)
    ELSE IF i > Len(q) THEN FALSE
    ELSE IF p[i] # q[i] THEN p[i] < q[i]
    ELSE LexLessAt(p, q, i + 1)
LexLess(p, q) == LexLessAt(p, q, 1)

PrefixFree(m) == \A p, q \in DOMAIN m : ~ProperPrefix(p, q)
=============================================================================
