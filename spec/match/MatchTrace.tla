----------------------------- MODULE MatchTrace -----------------------------
(* Recorded executions of the streaming filter, alone and inside the        *)
(* Subscribe server.                                                        *)
EXTENDS Match, TraceLib

VARIABLES l, reg
vars == <<l, reg>>
E == Trace[l]

Reg(h, c, q) == [h |-> h, c |-> c, q |-> q]

Exactly(r, S) == NoDup(r) /\ ToSet(r) = S

Reset == E.e = "reset" /\ reg' = {}

Add == E.e = "add" /\ reg' = reg \cup {Reg(E.h, E.c, E.q)}
Remove == E.e = "rm" /\ reg' = {r \in reg : r.h # E.h}

\* one path, no record of who was offered it: the clients, perhaps repeatedly
Update == /\ E.e = "upd"
          /\ Judge(l, ToSet(E.r) = Offered(reg, E.p), "offered to " \o ToString(E.r) \o ", expected " \o ToString(Offered(reg, E.p)))
          /\ UNCHANGED reg

\* several paths of one notification, each client once
Once == /\ E.e = "once"
        /\ LET S == OfferedAny(reg, ToSet(E.ps)) IN
           Judge(l, Exactly(E.r, S), "offered to " \o ToString(E.r) \o ", expected " \o ToString(S))
        /\ UNCHANGED reg

NotiPaths(n, pre) == {pre \o Index(n.up[i].p) : i \in DOMAIN n.up} \cup {pre \o Index(n.del[i]) : i \in DOMAIN n.del}

Noti == /\ E.e = "noti"
        /\ LET S == OfferedAny(reg, NotiPaths(E.n, E.pre)) IN
           Judge(l, Exactly(E.r, S), "notification offered to " \o ToString(E.r) \o ", expected " \o ToString(S))
        /\ UNCHANGED reg

----------------------------------------------------------------------------
(* in the server: a subscription list registers one query per path          *)
SubQuery(pre, p) == NonEmpty(pre.t) \o Joined(pre, p)

Subscribe == /\ E.e = "sub"
             /\ reg' = reg \cup {Reg(E.c, E.c, SubQuery(E.pre, E.subs[i])) : i \in DOMAIN E.subs}

\* leaves a query returned to the subscriber: they must be streamed too
Snapshot == /\ E.e = "snap"
            /\ Judge(l, \A i \in DOMAIN E.r : E.c \in Offered(reg, E.r[i]), "a leaf of the snapshot is not streamed")
            /\ UNCHANGED reg

\* r: sequence of <<subscriber, how many times the notification reached it>>
Served == /\ E.e = "srv"
          /\ LET S == OfferedAny(reg, NotiPaths(E.n, FullIndex(E.n.pre))) IN
             Judge(l, ToSet(E.r) = {<<c, 1>> : c \in S} /\ NoDup(E.r),
                   "notification delivered to <<subscriber, times>> " \o ToString(E.r) \o ", expected once to " \o ToString(S))
          /\ UNCHANGED reg

Unsubscribe == /\ E.e = "unsub"
               /\ Judge(l, ~E.left, "subscription still registered after it ended")
               /\ reg' = {r \in reg : r.c # E.c}

Panic == /\ E.e \in {"panic", "stuck"} /\ Bad(l, E.e) /\ UNCHANGED reg

Init == l = 1 /\ reg = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \/ Reset \/ Add \/ Remove \/ Update \/ Once \/ Noti \/ Subscribe \/ Snapshot \/ Served \/ Unsubscribe \/ Panic
Spec == Init /\ [][Next]_vars
Consumed == Finished(TLCGet("stats").diameter - 1)
=============================================================================
