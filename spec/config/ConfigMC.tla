------------------------------ MODULE ConfigMC ------------------------------
(* The loading algorithm: a set of changed requests, then a classification  *)
(* of every known target, then everything that is left is new.              *)
EXTENDS Config, Json
CONSTANTS Names, Reqs, Cs, Qs, Depth, Bad, Gen, Broken

VARIABLES cur, R, n, last, h
vars == <<cur, R, n, last, h>>

Maps(D, V) == UNION {[S -> V] : S \in SUBSET D}
Targets == [c : Cs, r : Reqs, bad : {FALSE}] \cup (IF Bad THEN {[c |-> 0, r |-> CHOOSE x \in Reqs : TRUE, bad |-> TRUE]} ELSE {})
Configs == {[req |-> q, tgt |-> t] : q \in Maps(Reqs, Qs), t \in Maps(Names, Targets)}
Tried == IF Bad THEN Configs ELSE {x \in Configs : Valid(x)}

Init == cur = NoConfig /\ R = <<>> /\ n = 0 /\ last = <<>> /\ h = <<>>

(* settings and the name of the request are compared together *)
Same(a, b) == a.c = b.c /\ a.r = b.r
Changed(a, b) == {q \in DOMAIN a.req \cap DOMAIN b.req : a.req[q] # b.req[q]}

Diff(a, b) ==
    LET ch == IF Broken = "request" THEN {} ELSE Changed(a, b)
        Keep(x) == IF Broken = "pointer" THEN a.tgt[x].c = b.tgt[x].c /\ a.tgt[x].r \notin ch
                   ELSE Same(a.tgt[x], b.tgt[x]) /\ a.tgt[x].r \notin ch
        U(x) == [k |-> "upd", n |-> x, v |-> View(b)[x]]
        gone == {[k |-> "del", n |-> x] : x \in DOMAIN a.tgt \ DOMAIN b.tgt}
        upd == {U(x) : x \in {y \in DOMAIN a.tgt \cap DOMAIN b.tgt : ~Keep(y)}}
        new == {[k |-> "add", n |-> x, v |-> View(b)[x]] : x \in DOMAIN b.tgt \ DOMAIN a.tgt}
    IN gone \cup upd \cup new

FollowSet(S, C) ==
    LET RECURSIVE F(_, _)
        F(r, c) == IF c = {} THEN r ELSE LET x == CHOOSE x \in c : TRUE IN F(Follow(r, x), c \ {x})
    IN F(S, C)

Load(x, rev) ==
    LET cf == [rev |-> rev, req |-> x.req, tgt |-> x.tgt]
        ok == Valid(cf) /\ (None(cur) \/ (IF Broken = "equal" THEN rev >= cur.rev ELSE rev > cur.rev))
        d == Diff(cur, cf)
    IN /\ n' = n + 1
       /\ cur' = IF ok THEN cf ELSE cur
       /\ R' = IF ok THEN FollowSet(R, d) ELSE R
       /\ last' = [ok |-> ok, d |-> IF ok THEN d ELSE {}, from |-> cur, to |-> cf]
       /\ h' = IF Gen THEN Append(h, cf) ELSE h
       /\ IF Gen THEN PrintT("@@HIST " \o ToJson(h')) ELSE TRUE

Next == n < Depth /\ \E x \in Tried : \E rev \in IF Gen THEN {n + 1} ELSE {0, 1, 2} : Load(x, rev)

Spec == Init /\ [][Next]_vars
VW == <<cur, R, n, last>>
VWG == <<cur, n>>

Replayed == R = IF None(cur) THEN <<>> ELSE View(cur)
\* the calls are the difference, and nothing is announced for an unchanged target
Exact == last = <<>> \/ (last.ok =>
    last.d = Calls(IF None(last.from) THEN <<>> ELSE View(last.from), View(last.to)))
Monotone == last = <<>> \/ (last.ok /\ ~None(last.from) => last.to.rev > last.from.rev)
=============================================================================
