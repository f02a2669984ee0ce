---------------------------- MODULE ConfigTrace -----------------------------
(* C17: loads of configurations, one at a time.                             *)
EXTENDS Config, TraceLib
VARIABLES l, cur, R, hand
vars == <<l, cur, R, hand>>

Init == l = 1 /\ cur = NoConfig /\ R = <<>> /\ hand = TRUE

Call(x) == IF x.k = "del" THEN [k |-> "del", n |-> x.n] ELSE [k |-> x.k, n |-> x.n, v |-> x.v]
FollowAll(S, cs) == LET F[i \in 0..Len(cs)] == IF i = 0 THEN S ELSE TLCEval(Follow(F[i-1], cs[i])) IN F[Len(cs)]
AllLegal(S, cs) == \A i \in DOMAIN cs : Legal(FollowAll(S, SubSeq(cs, 1, i - 1)), cs[i])

Content(cf) == [req |-> cf.req, tgt |-> cf.tgt]
\* a configuration without content is the same as none
SameCur(o, cf) == IF None(cf) THEN DOMAIN o.tgt = {} /\ DOMAIN o.req = {} ELSE Content(o) = Content(cf) /\ o.rev = cf.rev

Load(e) ==
    \E ok \in {~e.nil /\ Valid(e.cf) /\ Accepts(cur, e.cf)} :
    \E cs \in {TLCEval([i \in DOMAIN e.calls |-> Call(e.calls[i])])} :
    \E V \in {IF None(cur) THEN <<>> ELSE View(cur)} :
    /\ Judge(l, (e.err = "ok") = ok, IF ok THEN "a valid newer configuration is refused" ELSE "an invalid or not newer configuration is accepted")
    /\ IF ok THEN
          \E W \in {View(e.cf)} :
          /\ Judge(l, ~hand \/ ToSet(cs) \ Calls(V, W) = {}, "call for an unchanged target, or a wrong one: " \o ToString(ToSet(cs) \ Calls(V, W)))
          /\ Judge(l, ~hand \/ (AllLegal(R, cs) /\ FollowAll(R, cs) = W), "the handler does not have the targets of the configuration")
          /\ Judge(l, ~hand \/ NoDup(cs), "a call twice")
          /\ cur' = e.cf /\ R' = W
       ELSE /\ Judge(l, Len(cs) = 0, "handler called for a refused configuration")
            /\ UNCHANGED <<cur, R>>
    /\ Judge(l, SameCur(e.cur, cur'), "the current configuration is not the last accepted one")

Next ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       CASE e.e = "reset" -> cur' = NoConfig /\ R' = <<>> /\ hand' = e.hand
         [] e.e = "base" -> /\ Judge(l, (e.err = "ok") = Valid(e.cf), "base configuration")
                            /\ IF Valid(e.cf) THEN cur' = e.cf /\ R' = View(e.cf) ELSE UNCHANGED <<cur, R>>
                            /\ hand' = hand
         [] e.e = "load" -> Load(e) /\ hand' = hand
         [] OTHER -> UNCHANGED <<cur, R, hand>> /\ Judge(l, e.e = "end", e.e)

Spec == Init /\ [][Next]_vars
Consumed == Finished(TLCGet("stats").diameter - 1)
=============================================================================
