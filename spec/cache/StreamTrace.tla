---------------------------- MODULE StreamTrace -----------------------------
(* C14: what resets and removals do to subscriptions.                       *)
EXTENDS GPath, TraceLib
VARIABLES l, st
vars == <<l, st>>

Init == l = 1 /\ st = <<>>       \* stream number -> "open" or "closed"

WholeTarget(n, t) == \E j \in DOMAIN n.del : StripStar(NotiIndex(n.pre, n.del[j])) = <<t>>

One(e, s) ==
    LET was == IF s.id \in DOMAIN st THEN st[s.id] ELSE "open"
        ends == was = "open" /\ e.op = "rm" /\ e.t = s.t /\ e.known
    IN
    /\ Judge(l, was = "open" => s.st = (IF ends THEN "ok" ELSE "open"),
             "stream " \o ToString(s.id) \o " on " \o s.t \o " is " \o s.st \o " after " \o e.op \o " of " \o e.t)
    /\ Judge(l, was = "closed" => Len(s.got) = 0, "messages after the end of the stream")
    /\ Judge(l, ends => Len(s.got) > 0 /\ WholeTarget(s.got[Len(s.got)], s.t), "the removal is not announced on the stream")
    /\ Judge(l, (e.op = "rm" /\ s.t = "*" /\ e.known) => \E i \in DOMAIN s.got : WholeTarget(s.got[i], e.t), "the removal is not announced on the all-targets stream")
    /\ Judge(l, s.t = "*" \/ \A i \in DOMAIN s.got : s.got[i].pre.t = s.t, "data of another target on the stream")
    /\ Judge(l, e.op \in {"meta", "open"} \/ \A i \in DOMAIN s.got : s.got[i].pre.t = e.t, "a change of another target on the stream")

Next ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset" THEN st' = <<>>
       ELSE IF e.e = "op" THEN
           /\ \A i \in DOMAIN e.streams : One(e, e.streams[i])
           /\ st' = [i \in DOMAIN e.streams |-> IF e.streams[i].st = "open" THEN "open" ELSE "closed"]
       ELSE UNCHANGED st /\ Judge(l, FALSE, e.e)

Spec == Init /\ [][Next]_vars
Consumed == Finished(TLCGet("stats").diameter - 1)
=============================================================================
