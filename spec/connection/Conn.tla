-------------------------------- MODULE Conn --------------------------------
(* Shared, reference-counted connections (package connection).  Callers ask *)
(* for a connection to an address, wait for the dial they started or joined *)
(* and release what they got.  One step per critical section.               *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS Callers, Addrs, MaxReq, Gen, Broken

(* entries of the table are numbered in the order of their creation         *)
VARIABLES ent,    \* Seq([a, ref, st, closed])
          tab,    \* address -> entry, 0: none
          pc,     \* caller -> [s, n]: idle, wait n, hold n, old n (released or failed)
          reqs, h
vars == <<ent, tab, pc, reqs, h>>
View == <<ent, tab, pc, reqs>>

Init == /\ ent = <<>> /\ tab = [a \in Addrs |-> 0]
        /\ pc = [g \in Callers |-> [s |-> "idle", n |-> 0]] /\ reqs = 0 /\ h = <<>>

Hist(x) == /\ h' = IF Gen THEN Append(h, x) ELSE h
           /\ IF Gen THEN PrintT("@@HIST " \o ToJson(h')) ELSE TRUE

Request(g, a) ==
    /\ pc[g].s \in {"idle", "old"} /\ reqs < MaxReq /\ reqs' = reqs + 1
    /\ LET n == IF tab[a] = 0 THEN Len(ent) + 1 ELSE tab[a]
           e == IF tab[a] = 0 THEN Append(ent, [a |-> a, ref |-> 0, st |-> "dialing", closed |-> 0]) ELSE ent
       IN /\ ent' = IF Broken = "lateref" THEN e ELSE [e EXCEPT ![n].ref = @ + 1]
          /\ tab' = [tab EXCEPT ![a] = n]
          /\ pc' = [pc EXCEPT ![g] = [s |-> "wait", n |-> n]]
    /\ Hist([op |-> "req", g |-> g, a |-> a])

Dialed(n, ok) ==
    /\ ent[n].st = "dialing"
    /\ ent' = [ent EXCEPT ![n].st = IF ok THEN "ok" ELSE "failed"]
    /\ tab' = IF ok \/ Broken = "keepfailed" THEN tab ELSE [tab EXCEPT ![ent[n].a] = 0]
    /\ UNCHANGED <<pc, reqs>>
    /\ Hist([op |-> IF ok THEN "ok" ELSE "fail", a |-> ent[n].a, g |-> 0])

Wake(g) ==
    /\ pc[g].s = "wait" /\ ent[pc[g].n].st # "dialing"
    /\ pc' = [pc EXCEPT ![g].s = IF ent[pc[g].n].st = "ok" THEN "hold" ELSE "old"]
    /\ ent' = IF Broken = "lateref" THEN [ent EXCEPT ![pc[g].n].ref = @ + 1] ELSE ent
    /\ UNCHANGED <<tab, reqs, h>>

Drop(n) == LET last == ent[n].ref <= 1 IN
    /\ ent' = [ent EXCEPT ![n].ref = @ - 1, ![n].closed = IF last THEN @ + 1 ELSE @]
    /\ tab' = IF last /\ (Broken # "keeptab") THEN [tab EXCEPT ![ent[n].a] = 0] ELSE tab

Done(g) ==
    /\ pc[g].s = "hold"
    /\ pc' = [pc EXCEPT ![g].s = "old"]
    /\ Drop(pc[g].n)
    /\ UNCHANGED reqs
    /\ Hist([op |-> "done", g |-> g, a |-> ""])

\* releasing again, or after a failure
DoneAgain(g) ==
    /\ pc[g].s = "old"
    /\ IF Broken = "noonce" /\ ent[pc[g].n].st = "ok" THEN Drop(pc[g].n) ELSE UNCHANGED <<ent, tab>>
    /\ UNCHANGED <<pc, reqs>>
    /\ Gen => (h = <<>> \/ h[Len(h)].op # "again")
    /\ Hist([op |-> "again", g |-> g, a |-> ""])

\* in the generated histories a caller wakes at once
Ready == {g \in Callers : pc[g].s = "wait" /\ ent[pc[g].n].st # "dialing"}
Next == \/ \E g \in Callers : Wake(g)
        \/ /\ Gen => Ready = {}
           /\ \/ \E g \in Callers, a \in Addrs : Request(g, a)
              \/ \E n \in DOMAIN ent, ok \in BOOLEAN : Dialed(n, ok)
              \/ \E g \in Callers : Done(g) \/ DoneAgain(g)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
LiveSpec == Init /\ [][Next]_vars /\ \A g \in Callers : WF_vars(Wake(g))
              /\ \A k \in 1..MaxReq : WF_vars(k \in DOMAIN ent /\ \E ok \in BOOLEAN : Dialed(k, ok))

Holds(n) == {g \in Callers : pc[g].s = "hold" /\ pc[g].n = n}
Waits(n) == {g \in Callers : pc[g].s = "wait" /\ pc[g].n = n}

OneDial == \A n, m \in DOMAIN ent : n # m /\ ent[n].a = ent[m].a => ~(ent[n].st = "dialing" /\ ent[m].st = "dialing")
OpenWhileHeld == \A n \in DOMAIN ent : Holds(n) \cup Waits(n) # {} => ent[n].closed = 0
ClosedOnce == \A n \in DOMAIN ent : ent[n].closed <= 1
\* a connection nobody needs is closed and forgotten
NoLeak == \A n \in DOMAIN ent : (ent[n].st = "ok" /\ Holds(n) \cup Waits(n) = {}) => (ent[n].closed = 1 /\ tab[ent[n].a] # n)
\* failures are forgotten: the next request dials
Fresh == \A n \in DOMAIN ent : ent[n].st = "failed" => tab[ent[n].a] # n
Counted == \A n \in DOMAIN ent : ent[n].st = "ok" => ent[n].ref = Cardinality(Holds(n) \cup Waits(n))
Answered == \A g \in Callers : pc[g].s = "wait" ~> pc[g].s # "wait"
=============================================================================
