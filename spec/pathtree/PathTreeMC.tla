----------------------------- MODULE PathTreeMC -----------------------------
(* Bounded exhaustive model of the sequential path tree.                    *)
(*                                                                          *)
(* Besides the abstract map m the model carries n, the node structure the   *)
(* implementation keeps (a set of branch nodes, including the root), evolved*)
(* by the algorithm of ctree: adds create the missing branches, deletes     *)
(* descend with the rule for wildcards and prune emptied branches.  TLC     *)
(* checks that the two views agree in every reachable state, i.e. that the  *)
(* algorithm implements the map, and prints one operation history per       *)
(* transition of the state graph, which the harness replays on the code.    *)
EXTENDS PathTree, TLC, Json, IOUtils

CONSTANTS Elems,      \* concrete elements
          MaxLen,     \* longest stored path
          QLen,       \* longest query path
          Vals,
          MaxHist,
          Gen         \* print the histories

VARIABLES m, hist, ghost
\* ghost: the branch nodes of the implementation-shaped tree

Paths(E, n) == UNION {[1..k -> E] : k \in 0..n}
AddPaths == Paths(Elems, MaxLen)
QPaths == Paths(Elems \cup {STAR}, QLen)

vars == <<m, hist, ghost>>
View == <<m, ghost>>

(* --- the implementation's recursion, on (leaves m, branches g) ---------- *)
(* Nodes are identified by their path.  internalDelete(node, subpath)       *)
(* returns the set of removed leaves.                                       *)
Kids(mm, g, p) == {q \in DOMAIN mm \cup g : Len(q) = Len(p) + 1 /\ Prefix(p, q)}

RECURSIVE IDelete(_, _, _, _)
IDelete(mm, g, p, q) ==
    IF q = <<>> \/ q[1] = STAR
    THEN IF p \in g
         THEN UNION {IDelete(mm, g, k, IF q = <<>> THEN q ELSE Tail(q)) : k \in Kids(mm, g, p)}
         ELSE IF p \in DOMAIN mm /\ Len(q) <= 1 THEN {p} ELSE {}
    ELSE IF p \in g
         THEN LET k == Append(p, q[1]) IN
              IF k \in g \/ k \in DOMAIN mm THEN IDelete(mm, g, k, Tail(q)) ELSE {}
         ELSE {}

(* pruning: a branch stays iff some remaining leaf is below it              *)
Prune(g, mm) == {b \in g : \E q \in DOMAIN mm : ProperPrefix(b, q)}

RECURSIVE IQuery(_, _, _, _)
IQuery(mm, g, p, q) ==
    IF q = <<>> \/ q = <<STAR>>
    THEN IF p \in g THEN UNION {IQuery(mm, g, k, <<>>) : k \in Kids(mm, g, p)}
         ELSE IF p \in DOMAIN mm THEN {p} ELSE {}
    ELSE IF p \notin g THEN {}
    ELSE IF q[1] = STAR THEN UNION {IQuery(mm, g, k, Tail(q)) : k \in Kids(mm, g, p)}
    ELSE LET k == Append(p, q[1]) IN
         IF k \in g \/ k \in DOMAIN mm THEN IQuery(mm, g, k, Tail(q)) ELSE {}

(* Add: walk down; error when crossing a leaf or landing on a branch        *)
IAddOK(mm, g, p) ==
    /\ \A i \in 0..Len(p)-1 : SubSeq(p, 1, i) \notin DOMAIN mm
    /\ p \notin g

Emit(op) == Gen => PrintT("@@HIST " \o ToJson(Append(hist, op)))

Init == m = EmptyTree /\ hist = <<>> /\ ghost = {}

Add(p, v) ==
    LET op == [op |-> "add", p |-> p, v |-> v] IN
    /\ Emit(op)
    /\ IF CanAdd(m, p)
       THEN /\ m' = Put(m, p, v)
            /\ ghost' = ghost \cup {SubSeq(p, 1, i) : i \in 0..Len(p)-1}
       ELSE UNCHANGED <<m, ghost>>
    /\ hist' = Append(hist, op)

Delete(q, c) ==   \* c: delete only values in c
    LET S == {p \in Sel(m, q) : m[p] \in c}
        op == [op |-> "del", p |-> q, c |-> c] IN
    /\ Emit(op)
    /\ m' = Without(m, S)
    /\ ghost' = Prune(ghost, m')
    /\ hist' = Append(hist, op)

Next == \/ \E p \in AddPaths, v \in Vals : Add(p, v)
        \/ \E q \in QPaths, c \in {Vals, {1}} : Delete(q, c)

Spec == Init /\ [][Next]_vars

Bound == Len(hist) < MaxHist

(* ---- properties ---- *)
InvPrefixFree == PrefixFree(m)
InvQuery == \A q \in QPaths : IQuery(m, ghost, <<>>, q) = Sel(m, q)
InvDelete == \A q \in QPaths : IDelete(m, ghost, <<>>, q) = Sel(m, q)
InvAdd == \A p \in AddPaths : IAddOK(m, ghost, p) <=> CanAdd(m, p)
InvLex == \A p, q \in DOMAIN m : p # q => (LexLess(p, q) <=> ~LexLess(q, p))
=============================================================================
