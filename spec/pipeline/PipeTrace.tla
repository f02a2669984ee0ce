----------------------------- MODULE PipeTrace ------------------------------
(* A target streams to the real collector; whenever everything is at rest    *)
(* the views of the collector's clients and the output of the CLI are what   *)
(* the target has streamed in its session.                                   *)
EXTENDS GPath, TraceLib

VARIABLES l, me, st
vars == <<l, me, st>>
E == Trace[l]

Default(o) == IF o = "" THEN "openconfig" ELSE o
At(pre, p) == <<me, Default(IF pre.o # "" THEN pre.o ELSE p.o)>> \o Index(pre) \o Index(p)

\* deletions first, then the updates
Minus(S, n) == LET D == {At(n.pre, n.del[i]) : i \in DOMAIN n.del} IN {x \in S : \A d \in D : ~Selects(d, x.p)}
Plus(S, n) == Fold(LAMBDA a, u : LET p == At(n.pre, u.p) IN {x \in a : x.p # p} \cup {[p |-> p, v |-> u.v]}, S, n.up)

Reset == E.e = "reset" /\ me' = E.me /\ st' = {}
\* a new session starts from nothing
Sess == E.e = "sess" /\ st' = {} /\ UNCHANGED me
        /\ Judge(l, E.got = E.want, "subscribed to the target with another request")
Noti == E.e = "noti" /\ st' = TLCEval(Plus(Minus(st, E.n), E.n)) /\ UNCHANGED me

\* f: the rendering of values that was looked at
Selected(p, qs) == \E i \in DOMAIN qs : Selects(qs[i], Tail(p))
Want == {[p |-> x.p, v |-> x.v[E.f]] : x \in {x \in st : Selected(x.p, E.q)}}
Got == {[p |-> E.lv[i].p, v |-> E.lv[i].v] : i \in DOMAIN E.lv}
View == /\ E.e = "view"
        /\ \E w \in {TLCEval(Want)}, g \in {TLCEval(Got)} :
             /\ Judge(l, w \subseteq g, E.how \o ": missing " \o ToString(w \ g) \o " instead " \o ToString(g \ w))
             /\ Judge(l, g \subseteq w, E.how \o ": extra or stale " \o ToString(g \ w))
        /\ UNCHANGED <<me, st>>
Lost == /\ E.e \in {"stuck", "exit"} /\ Bad(l, E.e \o ": " \o E.msg) /\ UNCHANGED <<me, st>>

Init == l = 1 /\ me = "" /\ st = {}
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Sess \/ Noti \/ View \/ Lost)
Spec == Init /\ [][Next]_vars
Consumed == Finished(TLCGet("stats").diameter - 1)
=============================================================================
