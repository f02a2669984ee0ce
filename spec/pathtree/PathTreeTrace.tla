--------------------------- MODULE PathTreeTrace ----------------------------
(* Every recorded call of the real ctree, used from one goroutine, must     *)
(* return what the abstract map returns and leave the content it leaves.    *)
EXTENDS PathTree, TraceLib

VARIABLES l, m,
          H,    \* leaf handle -> node
          N     \* node -> [p, att (still in the tree), v (value once detached)]
vars == <<l, m, H, N>>

E == Trace[l]

(* content lists are sequences of [p |-> path, v |-> value] *)
Content(w) == [p \in {w[i].p : i \in DOMAIN w} |->
                 w[CHOOSE i \in DOMAIN w : w[i].p = p].v]

PathsOf(w) == {w[i].p : i \in DOMAIN w}
PairsOf(w) == {<<w[i].p, w[i].v>> : i \in DOMAIN w}
PairsOfMap(mm, S) == {<<p, mm[p]>> : p \in S}

(* the list reports exactly the leaves of mm in S, each once *)
Reports(w, mm, S) == Len(w) = Cardinality(S) /\ PairsOf(w) = PairsOfMap(mm, S)

Sorted(w) == \A i \in 1..Len(w)-1 : LexLess(w[i].p, w[i+1].p)

SameMap(a, b) == DOMAIN a = DOMAIN b /\ \A p \in DOMAIN a : a[p] = b[p]

Agreed(mm) == Reports(E.w, mm, DOMAIN mm)

(* after a mutation the walk must show exactly mm; go on from what it shows *)
Settle(mm) ==
    /\ Judge(l, Reports(E.w, mm, DOMAIN mm), "content after " \o E.e \o ": expected " \o ToString(mm))
    /\ m' = IF Reports(E.w, mm, DOMAIN mm) THEN mm ELSE Content(E.w)

Detach(S) == [n \in DOMAIN N |->
               IF N[n].att /\ N[n].p \in S THEN [p |-> N[n].p, att |-> FALSE, v |-> m[N[n].p]] ELSE N[n]]

\* once content and model have parted, older handles say nothing
KeepH(ok, nn) == IF ok THEN H' = H /\ N' = nn ELSE H' = <<>> /\ N' = <<>>

Reset == E.e = "reset" /\ m' = EmptyTree /\ H' = <<>> /\ N' = <<>>

Add == /\ E.e = "add"
       /\ LET ok == CanAdd(m, E.p) IN
          /\ Judge(l, E.ok = ok, "add result")
          /\ Settle(IF ok THEN Put(m, E.p, E.v) ELSE m)
          /\ KeepH(Agreed(IF ok THEN Put(m, E.p, E.v) ELSE m), N)

\* removal: every value in c qualifies
Removed == {p \in Sel(m, E.p) : m[p] \in ToSet(E.c)}

Del == /\ E.e = "del"
       /\ LET S == Removed IN
          /\ Judge(l, Len(E.r) = Cardinality(S) /\ ToSet(E.r) = S, "paths returned by delete: expected " \o ToString(S))
          /\ Settle(Without(m, S))
          /\ KeepH(Agreed(Without(m, S)), Detach(S))

DelAll == /\ E.e = "delall"
       /\ LET S == Sel(m, E.p) IN
          /\ Judge(l, Len(E.r) = Cardinality(S) /\ ToSet(E.r) = S, "paths returned by delete: expected " \o ToString(S))
          /\ Settle(Without(m, S))
          /\ KeepH(Agreed(Without(m, S)), Detach(S))

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})

\* WalkDeleted reports the values removed
DelWalk == /\ E.e = "delwalk"
       /\ LET S == Removed IN
          /\ Judge(l, /\ Len(E.r) = Cardinality(S)
                      /\ \A x \in ToSet(E.r) : Count(E.r, x) = Cardinality({p \in S : m[p] = x}),
                   "values reported by WalkDeleted: expected those of " \o ToString(S))
          /\ Settle(Without(m, S))
          /\ KeepH(Agreed(Without(m, S)), Detach(S))

Query == /\ E.e = "query"
         /\ Judge(l, Reports(E.r, m, Sel(m, E.p)) /\ ~E.err, "query result: expected " \o ToString(Sel(m, E.p)))
         /\ UNCHANGED <<m, H, N>>

\* query or walk whose callback fails at its k-th call
Min(a, b) == IF a < b THEN a ELSE b
QueryErr == /\ E.e \in {"querr", "walkerr", "walkserr"}
            /\ LET S == IF E.e = "querr" THEN Sel(m, E.p) ELSE DOMAIN m
                   n == Min(E.k, Cardinality(S)) IN
               /\ Judge(l, /\ Len(E.r) = n /\ PairsOf(E.r) \subseteq PairsOfMap(m, S)
                           /\ Cardinality(PathsOf(E.r)) = n
                           /\ E.err = (E.k <= Cardinality(S)), "early termination")
               /\ UNCHANGED <<m, H, N>>

Walk == /\ E.e = "walk"
        /\ Judge(l, Reports(E.r, m, DOMAIN m) /\ ~E.err, "walk")
        /\ UNCHANGED <<m, H, N>>

WalkS == /\ E.e = "walks"
         /\ Judge(l, Reports(E.r, m, DOMAIN m) /\ Sorted(E.r) /\ ~E.err, "sorted walk")
         /\ UNCHANGED <<m, H, N>>

Kind(p) == IF IsLeafAt(m, p) THEN "leaf" ELSE IF IsBranchAt(m, p) THEN "branch"
           ELSE IF p = <<>> THEN "empty" ELSE "nil"

Get == /\ E.e = "get"
       /\ Judge(l, /\ E.kind = Kind(E.p)
                   /\ E.kind = "leaf" => E.v = m[E.p]
                   /\ NoDup(E.kids) /\ ToSet(E.kids) = IF Kind(E.p) = "branch" THEN ChildrenAt(m, E.p) ELSE {},
                "lookup: expected " \o Kind(E.p))
       /\ UNCHANGED <<m, H, N>>

GetLV == /\ E.e = "glv"
         /\ Judge(l, E.v = IF IsLeafAt(m, E.p) THEN m[E.p] ELSE -1, "GetLeafValue")
         /\ UNCHANGED <<m, H, N>>

(* a leaf handle: GetLeaf returns one exactly for stored leaves             *)
NodesAt(p) == {n \in DOMAIN N : N[n].att /\ N[n].p = p}
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Handle == /\ E.e = "handle"
          /\ Judge(l, E.ok = IsLeafAt(m, E.p), "GetLeaf")
          /\ m' = m
          /\ IF E.ok /\ IsLeafAt(m, E.p)
             THEN IF NodesAt(E.p) # {}
                  THEN H' = With(H, E.h, CHOOSE n \in NodesAt(E.p) : TRUE) /\ N' = N
                  ELSE /\ H' = With(H, E.h, E.h)
                       /\ N' = With(N, E.h, [p |-> E.p, att |-> TRUE, v |-> 0])
             ELSE UNCHANGED <<H, N>>

Detached == /\ E.e = "detached"
            /\ m' = m
            /\ H' = With(H, E.h, E.h)
            /\ N' = With(N, E.h, [p |-> <<>>, att |-> FALSE, v |-> E.v])

HVal == /\ E.e = "hval"
        /\ E.h \in DOMAIN H =>
             LET n == N[H[E.h]] IN
             Judge(l, E.v = IF n.att THEN m[n.p] ELSE n.v, "value through a leaf handle")
        /\ UNCHANGED <<m, H, N>>

HUpd == /\ E.e = "hupd"
        /\ IF E.h \in DOMAIN H
           THEN LET n == N[H[E.h]] IN
                IF n.att
                THEN Settle(Put(m, n.p, E.v)) /\ KeepH(Agreed(Put(m, n.p, E.v)), N)
                ELSE Settle(m) /\ KeepH(Agreed(m), [N EXCEPT ![H[E.h]].v = E.v])
           ELSE m' = Content(E.w) /\ UNCHANGED <<H, N>>

Panic == /\ E.e = "panic"
         /\ Bad(l, "panic: " \o E.msg)
         /\ UNCHANGED <<m, H, N>>

Init == l = 1 /\ m = EmptyTree /\ H = <<>> /\ N = <<>>

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \/ Reset \/ Add \/ Del \/ DelAll \/ DelWalk \/ Query \/ QueryErr \/ Walk \/ WalkS
           \/ Get \/ GetLV \/ Handle \/ Detached \/ HVal \/ HUpd \/ Panic

Spec == Init /\ [][Next]_vars

(* the abstract map stays prefix-free along every real execution *)
Consumed == Finished(TLCGet("stats").diameter - 1)
=============================================================================
