------------------------------- MODULE Match --------------------------------
(* The streaming filter (package match): clients registered with query      *)
(* paths; every notification is offered to the clients whose query agrees   *)
(* with one of its paths on every element both have.                        *)
EXTENDS GPath, TLC

(* reg is a set of [c |-> client, q |-> query path]                         *)
Offered(reg, p) == {r.c : r \in {x \in reg : Agree(x.q, p)}}
OfferedAny(reg, ps) == UNION {Offered(reg, p) : p \in ps}

----------------------------------------------------------------------------
(* The algorithm: a trie whose nodes are named by the path leading to them. *)
(* T is [nodes |-> set of paths, cl |-> node -> set of clients].            *)
EmptyTrie == [nodes |-> {<<>>}, cl |-> (<<>> :> {})]

Prefixes(q) == {SubSeq(q, 1, i) : i \in 0..Len(q)}

TrieAdd(T, q, c) ==
    LET N == T.nodes \cup Prefixes(q) IN
    [nodes |-> N,
     cl |-> [n \in N |-> (IF n \in T.nodes THEN T.cl[n] ELSE {}) \cup (IF n = q THEN {c} ELSE {})]]

Kids(T, n) == {m \in T.nodes : Len(m) = Len(n) + 1 /\ SubSeq(m, 1, Len(n)) = n}

(* removal prunes, upwards from q, nodes left with no client and no child   *)
RECURSIVE Prune(_, _)
Prune(T, n) ==
    IF n = <<>> \/ T.cl[n] # {} \/ Kids(T, n) # {} THEN T
    ELSE Prune([nodes |-> T.nodes \ {n}, cl |-> [m \in T.nodes \ {n} |-> T.cl[m]]], SubSeq(n, 1, Len(n) - 1))

TrieRemove(T, q, c) ==
    IF q \notin T.nodes THEN T
    ELSE Prune([T EXCEPT !.cl[q] = @ \ {c}], q)

(* the clients an update of path p visits, starting below node n            *)
RECURSIVE Visit(_, _, _)
Visit(T, n, p) ==
    T.cl[n] \cup
    (IF p = <<>> THEN UNION {Visit(T, k, <<>>) : k \in Kids(T, n)}
     ELSE IF Head(p) = "*" THEN UNION {Visit(T, k, Tail(p)) : k \in Kids(T, n)}
     ELSE UNION {Visit(T, k, Tail(p)) : k \in {m \in Kids(T, n) : m[Len(m)] \in {"*", Head(p)}}})
=============================================================================
