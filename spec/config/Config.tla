------------------------------- MODULE Config -------------------------------
(* Target configuration (package target).  A configuration is               *)
(*   [rev, req |-> name -> content, tgt |-> name -> [c, r, bad]]            *)
(* where c is everything a target's settings consist of, r the request it   *)
(* names (part of the settings) and bad says that the settings are          *)
(* unusable on their own (no address, no request name, missing).            *)
EXTENDS Integers, FiniteSets, Sequences, TLC

Valid(cf) == \A n \in DOMAIN cf.tgt : /\ n # "" /\ ~cf.tgt[n].bad
                                      /\ cf.tgt[n].r \in DOMAIN cf.req

(* what a handler should have been told: settings and request per target    *)
View(cf) == TLCEval([n \in DOMAIN cf.tgt |-> [c |-> cf.tgt[n].c, r |-> cf.tgt[n].r, q |-> cf.req[cf.tgt[n].r]]])

NoConfig == [rev |-> 0, req |-> <<>>, tgt |-> <<>>, none |-> TRUE]
None(cf) == "none" \in DOMAIN cf

Accepts(cur, cf) == Valid(cf) /\ (None(cur) \/ cf.rev > cur.rev)

(* the calls that announce the step from view V to view W                   *)
Calls(V, W) ==
    {[k |-> "del", n |-> n] : n \in DOMAIN V \ DOMAIN W}
    \cup {[k |-> "add", n |-> n, v |-> W[n]] : n \in DOMAIN W \ DOMAIN V}
    \cup {[k |-> "upd", n |-> n, v |-> W[n]] : n \in {x \in DOMAIN V \cap DOMAIN W : V[x] # W[x]}}

(* a handler that follows the calls *)
Legal(R, x) == IF x.k = "add" THEN x.n \notin DOMAIN R ELSE x.n \in DOMAIN R
Follow(R, x) == IF x.k = "del" THEN TLCEval([n \in DOMAIN R \ {x.n} |-> R[n]])
                ELSE TLCEval([n \in DOMAIN R \cup {x.n} |-> IF n = x.n THEN x.v ELSE R[n]])
=============================================================================
