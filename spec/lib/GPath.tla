------------------------------- MODULE GPath --------------------------------
(* gNMI paths and their index form.                                         *)
(*                                                                          *)
(* A path is [t |-> target, o |-> origin, el |-> Seq of elements, old |->   *)
(* deprecated elements]; an element is [n |-> name, k |-> Seq of keys], a   *)
(* key [r |-> rank of its name, v |-> value], in no particular order.       *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt

(* FoldLeft evaluates iteratively *)
Fold(f(_, _), b, s) == FoldLeft(f, b, s)

Flat(s) == Fold(LAMBDA a, b : a \o b, <<>>, s)

KeyVals(ks) ==
    LET R == {ks[i].r : i \in DOMAIN ks}
        At(j) == CHOOSE r \in R : Cardinality({q \in R : q < r}) = j - 1
        V(r) == ks[CHOOSE i \in DOMAIN ks : ks[i].r = r].v
    IN [j \in 1..Cardinality(R) |-> V(At(j))]

ElemIndex(e) == <<e.n>> \o KeyVals(e.k)

(* path elements only *)
Index(p) == IF Len(p.el) = 0 THEN p.old
            ELSE Flat([i \in DOMAIN p.el |-> ElemIndex(p.el[i])])

NonEmpty(s) == IF s = "" THEN <<>> ELSE <<s>>

(* target and origin lead when requested and non-empty *)
FullIndex(p) == NonEmpty(p.t) \o NonEmpty(p.o) \o Index(p)

(* joining a prefix and a path *)
Conflict(pre, p) == \/ pre.o # "" /\ p.o # ""
                    \/ pre.o = "" /\ p.o # "" /\ Index(pre) # <<>>
Joined(pre, p) == NonEmpty(IF pre.o # "" THEN pre.o ELSE p.o) \o Index(pre) \o Index(p)

(* where a notification's update or delete is indexed, target included *)
NotiIndex(pre, p) == FullIndex(pre) \o Index(p)

----------------------------------------------------------------------------
(* agreement of two index paths: on every element they both have            *)
Min2(a, b) == IF a < b THEN a ELSE b
Agree(q, p) == \A i \in 1..Min2(Len(q), Len(p)) : q[i] = p[i] \/ q[i] = "*" \/ p[i] = "*"

(* what a query selects: a trailing wildcard or the end of the query is     *)
(* recursive, any other wildcard stands for exactly one element             *)
StripStar(q) == IF Len(q) > 0 /\ q[Len(q)] = "*" THEN SubSeq(q, 1, Len(q) - 1) ELSE q
Selects(q, p) == LET s == StripStar(q) IN
    /\ Len(p) >= Len(s)
    /\ \A i \in 1..Len(s) : s[i] = "*" \/ s[i] = p[i]
=============================================================================
