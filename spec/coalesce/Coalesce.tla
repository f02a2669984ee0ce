------------------------------ MODULE Coalesce ------------------------------
(* The coalescing queue: a FIFO of distinct pending items, each with the    *)
(* number of extra insertions it has absorbed.                              *)
EXTENDS Integers, Sequences, FiniteSets

\* q is a sequence of [it |-> item, dup |-> number]
Pending(q, x) == \E k \in DOMAIN q : q[k].it = x
Where(q, x) == CHOOSE k \in DOMAIN q : q[k].it = x
Put(q, x) == IF Pending(q, x) THEN [q EXCEPT ![Where(q, x)].dup = @ + 1]
             ELSE Append(q, [it |-> x, dup |-> 0])
Distinct(q) == \A a, b \in DOMAIN q : q[a].it = q[b].it => a = b
=============================================================================
