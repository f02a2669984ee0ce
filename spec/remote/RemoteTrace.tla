---------------------------- MODULE RemoteTrace ------------------------------
(* Messages of remote peers against the real cache, Subscribe handler,       *)
(* client library and CLI: they are processed or rejected, and change        *)
(* nothing but what they address.                                            *)
EXTENDS GPath, TraceLib

VARIABLE l
E == Trace[l]

Reset == E.e = "reset"

\* what update i or delete i of a notification addresses; in the cache the
\* target is not part of the path and an atomic group lives at its prefix
Lead(n) == IF E.at = "cache" THEN NonEmpty(n.pre.o) \o Index(n.pre) ELSE FullIndex(n.pre)
UpPath(n, i) == IF n.at /\ E.at = "cache" THEN Lead(n) ELSE Lead(n) \o Index(n.up[i])
DelPath(n, i) == Lead(n) \o Index(n.del[i])
Addressed(n, p) == \/ \E i \in DOMAIN n.up : p = UpPath(n, i)
                   \/ \E i \in DOMAIN n.del : Selects(DelPath(n, i), p)
Ops(n) == Len(n.up) + Len(n.del)

\* An atomic group is accepted or rejected as one; any other message of several
\* updates and deletes may be rejected in part.
\* diff: the paths at which the stored data changed; post: the paths stored now
Noti == /\ E.e = "noti"
        /\ Judge(l, \A i \in DOMAIN E.diff : Addressed(E.n, E.diff[i]), "changed data that the message does not address: " \o ToString(E.diff))
        /\ IF E.err /\ (E.refused \/ (E.at = "cache" /\ E.n.at) \/ Ops(E.n) <= 1)
           THEN Judge(l, E.diff = <<>>, "a rejected message changed " \o ToString(E.diff)) ELSE TRUE
        /\ IF E.at = "cache" /\ ~E.err /\ Len(E.n.up) > 0 /\ Len(E.n.del) = 0
           THEN Judge(l, \A i \in DOMAIN E.n.up : \E j \in DOMAIN E.post : E.post[j] = UpPath(E.n, i), "neither stored nor rejected")
           ELSE TRUE
\* a message that says nothing about leaves: a sync marker, an error, nothing
Other == E.e = "other" /\ Judge(l, E.diff = <<>>, "changed data: " \o ToString(E.diff))
\* the Subscribe handler came back, and left the cache alone
Sub == E.e = "sub" /\ Judge(l, E.diff = <<>>, "a request changed " \o ToString(E.diff))
       /\ Judge(l, E.r # "", "no status")
\* the CLI showed the stream or reported an error
Show == E.e = "show" /\ Judge(l, E.r \in {"ok", "err"}, E.r)
Panic == E.e \in {"panic", "stuck"} /\ Bad(l, E.e \o " at " \o E.msg)

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Noti \/ Other \/ Sub \/ Show \/ Panic)
Spec == Init /\ [][Next]_l
Consumed == Finished(TLCGet("stats").diameter - 1)
=============================================================================
