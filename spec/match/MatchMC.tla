------------------------------ MODULE MatchMC -------------------------------
(* Every reachable trie offers what the definition says, and is minimal.    *)
EXTENDS Match, TLC, Json

CONSTANTS Clients, Elems, MaxLen, MaxReg, Gen, Broken

Paths(n) == UNION {[1..k -> Elems] : k \in 0..n}
Probes == Paths(MaxLen + 1)

VARIABLES reg, T, h
vars == <<reg, T, h>>
View == <<reg, T>>

Init == reg = {} /\ T = EmptyTrie /\ h = <<>>

Step(op, c, q) == /\ h' = IF Gen THEN Append(h, [op |-> op, c |-> c, q |-> q]) ELSE h
                  /\ IF Gen THEN PrintT("@@HIST " \o ToJson(h')) ELSE TRUE

Add(c, q) == /\ [c |-> c, q |-> q] \notin reg
             /\ Cardinality(reg) < MaxReg
             /\ reg' = reg \cup {[c |-> c, q |-> q]}
             /\ T' = TrieAdd(T, q, c)
             /\ Step("add", c, q)

\* a broken variant prunes a node that other clients still need
TrieRemoveB(q, c) ==
    LET U == [T EXCEPT !.cl[q] = @ \ {c}]
        K == {n \in U.nodes : Len(n) >= Len(q) /\ SubSeq(n, 1, Len(q)) = q}
    IN IF U.cl[q] = {} /\ q # <<>>
       THEN [nodes |-> U.nodes \ K, cl |-> [m \in U.nodes \ K |-> U.cl[m]]]
       ELSE U

Remove(c, q) == /\ [c |-> c, q |-> q] \in reg
                /\ reg' = reg \ {[c |-> c, q |-> q]}
                /\ T' = IF Broken THEN TrieRemoveB(q, c) ELSE TrieRemove(T, q, c)
                /\ Step("rm", c, q)

Next == \E c \in Clients, q \in Paths(MaxLen) : Add(c, q) \/ Remove(c, q)

Spec == Init /\ [][Next]_vars

Filter == \A p \in Probes : Visit(T, <<>>, p) = Offered(reg, p)

\* a query's answer is part of what is streamed
QueryStreamed == \A r \in reg, p \in Probes : Selects(r.q, p) => r.c \in Offered(reg, p)

Minimal == T.nodes = {<<>>} \cup UNION {Prefixes(r.q) : r \in reg}
=============================================================================
