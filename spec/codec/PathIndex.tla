----------------------------- MODULE PathIndex ------------------------------
(* Converting a path to its index form, as an algorithm over maps whose     *)
(* iteration order is arbitrary.  Names are sequences of code points and    *)
(* are ordered lexicographically.                                           *)
EXTENDS GPath

RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE
              ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1]
              ELSE Less(Tail(a), Tail(b))

\* a path whose key names are code points, with the names' ranks instead
Ranked(ks) == LET Names == {ks[i].c : i \in DOMAIN ks}
              IN [i \in DOMAIN ks |-> [r |-> Cardinality({c \in Names : Less(c, ks[i].c)}), v |-> ks[i].v]]
RankedPath(p) == [t |-> p.t, o |-> p.o, old |-> p.old,
                  el |-> [i \in DOMAIN p.el |-> [n |-> p.el[i].n, k |-> Ranked(p.el[i].k)]]]

\* what the index must be
Want(p, pre) == IF pre THEN FullIndex(RankedPath(p)) ELSE Index(RankedPath(p))
=============================================================================
