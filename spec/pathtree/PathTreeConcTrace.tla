------------------------- MODULE PathTreeConcTrace --------------------------
(* Histories of concurrent calls on one real tree.  "inv" opens a call (the *)
(* harness has copied the call's result into it, so that branches die       *)
(* early), "ret" closes it; between the two the call takes effect in silent *)
(* steps:                                                                   *)
(*   - add, delete, handle update/read, lookups: one atomic step (a lookup  *)
(*     of a value finds the node first and reads it in a second step);      *)
(*   - query/walk: opens, then closes.  It must report what was present     *)
(*     throughout, may report only what was present at some moment in       *)
(*     between, and no delete takes effect while it is open (a delete is    *)
(*     atomic with respect to everything else).                             *)
(* A history no sequence of such steps explains is rejected.                *)
EXTENDS PathTree, TraceLib

VARIABLES l,
          P,     \* path -> node
          V,     \* node -> value, also of nodes removed from the tree
          H,     \* leaf handle -> node
          pend   \* thread -> call in progress
vars == <<l, P, V, H, pend>>

E == Trace[l]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Pairs(S) == {<<p, V[P[p]]>> : p \in S}
Open(t) == pend[t].st = "open"
Opened == {t \in DOMAIN pend : Open(t)}

NewNode == Cardinality(DOMAIN V) + 1

Step(t, st) == pend' = [pend EXCEPT ![t].st = st]

\* open queries may now also report (p, v)
MayAlso(p, v, t, st) ==
    pend' = [x \in DOMAIN pend |->
               IF x = t THEN [pend[x] EXCEPT !.st = st]
               ELSE IF pend[x].st = "open" /\ Match(pend[x].c.p, p)
                    THEN [pend[x] EXCEPT !.may = @ \cup {<<p, v>>}]
               ELSE pend[x]]

LinAdd(t) ==
    LET c == pend[t].c IN
    /\ c.op = "add" /\ pend[t].st = "inv"
    /\ c.ok = CanAdd(P, c.p)
    /\ IF c.ok
       THEN /\ IF c.p \in DOMAIN P
               THEN P' = P /\ V' = [V EXCEPT ![P[c.p]] = c.v]
               ELSE P' = With(P, c.p, NewNode) /\ V' = With(V, NewNode, c.v)
            /\ MayAlso(c.p, c.v, t, "done")
       ELSE UNCHANGED <<P, V>> /\ Step(t, "done")
    /\ H' = H

LinDel(t) ==
    LET c == pend[t].c
        S == {p \in DOMAIN P : Match(c.p, p) /\ V[P[p]] \in ToSet(c.c)} IN
    /\ c.op \in {"del", "delwalk"} /\ pend[t].st = "inv"
    /\ Opened = {}
    /\ Len(c.r) = Cardinality(S)
    /\ IF c.op = "del" THEN ToSet(c.r) = S
       ELSE \A x \in ToSet(c.r) : Cardinality({i \in DOMAIN c.r : c.r[i] = x}) = Cardinality({p \in S : V[P[p]] = x})
    /\ P' = [p \in DOMAIN P \ S |-> P[p]]
    /\ UNCHANGED <<V, H>>
    /\ Step(t, "done")

\* GetLeafValue: find the node, then read it
LinFind(t) ==
    LET c == pend[t].c IN
    /\ c.op = "glv" /\ pend[t].st = "inv"
    /\ IF c.p \in DOMAIN P
       THEN c.v # -1 /\ pend' = [pend EXCEPT ![t].st = "found", ![t].node = P[c.p]]
       ELSE c.v = -1 /\ Step(t, "done")
    /\ UNCHANGED <<P, V, H>>
LinRead(t) ==
    /\ pend[t].st = "found"
    /\ V[pend[t].node] = pend[t].c.v
    /\ Step(t, "done")
    /\ UNCHANGED <<P, V, H>>

LinHandle(t) ==
    LET c == pend[t].c IN
    /\ c.op = "handle" /\ pend[t].st = "inv"
    /\ c.ok = (c.p \in DOMAIN P)
    /\ H' = IF c.ok THEN With(H, c.h, P[c.p]) ELSE H
    /\ UNCHANGED <<P, V>>
    /\ Step(t, "done")

LinHVal(t) ==
    LET c == pend[t].c IN
    /\ c.op = "hval" /\ pend[t].st = "inv"
    /\ V[H[c.h]] = c.v
    /\ UNCHANGED <<P, V, H>>
    /\ Step(t, "done")

LinHUpd(t) ==
    LET c == pend[t].c
        n == H[c.h] IN
    /\ c.op = "hupd" /\ pend[t].st = "inv"
    /\ V' = [V EXCEPT ![n] = c.v]
    /\ IF \E p \in DOMAIN P : P[p] = n
       THEN MayAlso(CHOOSE p \in DOMAIN P : P[p] = n, c.v, t, "done")
       ELSE Step(t, "done")
    /\ UNCHANGED <<P, H>>

QOpen(t) ==
    LET c == pend[t].c
        S == Sel(P, c.p) IN
    /\ c.op = "query" /\ pend[t].st = "inv"
    /\ S \subseteq {c.r[i].p : i \in DOMAIN c.r}
    /\ pend' = [pend EXCEPT ![t].st = "open", ![t].may = Pairs(S)]
    /\ UNCHANGED <<P, V, H>>

QClose(t) ==
    LET c == pend[t].c
        R == {<<c.r[i].p, c.r[i].v>> : i \in DOMAIN c.r} IN
    /\ Open(t)
    /\ R \subseteq pend[t].may
    /\ Step(t, "done")
    /\ UNCHANGED <<P, V, H>>

Silent == /\ \E t \in DOMAIN pend :
               \/ LinAdd(t) \/ LinDel(t) \/ LinFind(t) \/ LinRead(t) \/ LinHandle(t)
               \/ LinHVal(t) \/ LinHUpd(t) \/ QOpen(t) \/ QClose(t)
          /\ l' = l

Reset == E.e = "reset" /\ P' = <<>> /\ V' = <<>> /\ H' = <<>> /\ pend' = <<>>

Inv == /\ E.e = "inv"
       /\ E.op = "query" => (\A i, j \in DOMAIN E.r : E.r[i].p = E.r[j].p => i = j) /\ ~E.err
       /\ pend' = With(pend, E.t, [c |-> E, st |-> "inv", node |-> 0, may |-> {}])
       /\ UNCHANGED <<P, V, H>>

Ret == /\ E.e = "ret"
       /\ pend[E.t].st = "done"
       /\ pend' = Drop(pend, E.t)
       /\ UNCHANGED <<P, V, H>>

\* everything finished: the content is the model's
Final == /\ E.e = "final"
         /\ pend = <<>>
         /\ Len(E.w) = Cardinality(DOMAIN P)
         /\ {<<E.w[i].p, E.w[i].v>> : i \in DOMAIN E.w} = Pairs(DOMAIN P)
         /\ UNCHANGED <<P, V, H, pend>>

Init == l = 1 /\ P = <<>> /\ V = <<>> /\ H = <<>> /\ pend = <<>> /\ TLCSet(1, 0)

Next == /\ l <= Len(Trace)
        /\ \/ Silent
           \/ /\ l' = l + 1
              /\ Reset \/ Inv \/ Ret \/ Final

Spec == Init /\ [][Next]_vars

Progress == Mark(l)
Consumed == Finished(TLCGet(1) - 1)
InvPrefixFree == PrefixFree(P)
=============================================================================
