------------------------------ MODULE SubTrace ------------------------------
(* Subscriptions of every mode against the cache: C04 (STREAM), C05 (ONCE   *)
(* and POLL) and C07 (access control).                                      *)
(*                                                                          *)
(* Events, in the order in which they happened (one goroutine at a time):   *)
(*  call [c, feed]  a cache operation starts; feed: what it will announce   *)
(*  feed [c, n]     an announcement is handed to the server (the tree has   *)
(*                  changed already)                                        *)
(*  ret  [c]        the operation returned                                  *)
(*  sub  [id, ...]  Subscribe is called                                     *)
(*  poll [id]       the client triggers another poll                        *)
(*  send [id, ...]  a message is passed to the stream                       *)
(*  end  [id, code] Subscribe returned                                      *)
(*  final [obs]     everything is quiet                                     *)
EXTENDS CacheObs

VARIABLES l,
          F,      \* content, built from the announcements: path -> [v, at]
          T,      \* path -> time stamp and line of its last announced update
          infl,   \* operations in progress: id -> announcements
          sub     \* subscriptions
vars == <<l, F, T, infl, sub>>

Init == l = 1 /\ F = <<>> /\ T = <<>> /\ infl = <<>> /\ sub = <<>>

SelBy(s, fp) == /\ Len(fp) > 0 /\ (s.t = "*" \/ fp[1] = s.t)
                /\ \E i \in DOMAIN s.q : Selects(s.q[i], Tail(fp))
AgreeBy(s, fp) == /\ Len(fp) > 0 /\ (s.t = "*" \/ fp[1] = s.t \/ fp[1] = "*")
                  /\ \E i \in DOMAIN s.q : Agree(s.q[i], Tail(fp))
May(s, fp) == s.acl = FALSE \/ fp[1] \in s.allow
Wanted(s, fp) == SelBy(s, fp) /\ May(s, fp)

SetsOf(n) == IF n.at THEN {<<FullIndex(n.pre), [v |-> n.av, at |-> TRUE]>>}
             ELSE {<<NotiIndex(n.pre, n.up[i].p), [v |-> n.up[i].v, at |-> FALSE]>> : i \in DOMAIN n.up}
DelsOf(n) == {NotiIndex(n.pre, n.del[i]) : i \in DOMAIN n.del}
AllSets(feed) == UNION {SetsOf(feed[i]) : i \in DOMAIN feed}
AllDels(feed) == UNION {DelsOf(feed[i]) : i \in DOMAIN feed}
Hit(Q, P) == {p \in P : \E q \in Q : Selects(q, p)}
(* an atomic update replaces what is below its path *)
Replaced(feed, P) == {p \in P : \E i \in DOMAIN feed : feed[i].at /\ Below(FullIndex(feed[i].pre), p) /\ FullIndex(feed[i].pre) # p}

InflDels == UNION {AllDels(infl[c]) : c \in DOMAIN infl}
InflSets == UNION {AllSets(infl[c]) : c \in DOMAIN infl}

(* a new round of a subscription: what must be delivered, what may be *)
Round(s) == [s EXCEPT !.must = {p \in DOMAIN F : Wanted(s, p)} \ Hit(InflDels, DOMAIN F),
                      !.held = {<<p, F[p]>> : p \in DOMAIN F} \cup InflSets,
                      !.done = {}, !.round = @ + 1]

Queries(e) == [i \in DOMAIN e.paths |-> Joined(e.pre, e.paths[i])]
BadPath(e) == \E i \in DOMAIN e.paths : Conflict(e.pre, e.paths[i])

Expected(e) ==
    IF e.acl = "broken" THEN "Unauthenticated"
    ELSE IF e.acl = "on" /\ e.pre.t # "*" /\ e.pre.t \notin ToSet(e.allow) THEN "PermissionDenied"
    ELSE IF BadPath(e) THEN "error"
    ELSE "OK"

New(e) == Round([t |-> e.pre.t, q |-> Queries(e), mode |-> e.mode, uo |-> e.uo, acl |-> e.acl = "on",
                 allow |-> ToSet(e.allow), exp |-> Expected(e), must |-> {}, held |-> {}, done |-> {},
                 view |-> <<>>, vts |-> <<>>, syncs |-> 0, syncl |-> 0, round |-> 0, code |-> "", over |-> FALSE,
                 msgs |-> 0])

Live(s) == ~s.over
Upd(f) == sub' = [i \in DOMAIN sub |-> IF Live(sub[i]) THEN f[i] ELSE sub[i]]

DoCall(e) ==
    /\ infl' = [c \in DOMAIN infl \cup {e.c} |-> IF c = e.c THEN e.feed ELSE infl[c]]
    /\ \E D \in {AllDels(e.feed)} : \E S \in {AllSets(e.feed)} :
       Upd([i \in DOMAIN sub |-> [sub[i] EXCEPT
            !.must = @ \ (Hit(D, @) \cup Replaced(e.feed, @)),
            !.held = @ \cup S]])
    /\ UNCHANGED <<F, T>>
DoFeed(e) ==
    /\ F' = Consume(F, e.n)
    /\ T' = LET S == {x[1] : x \in SetsOf(e.n)} IN
            [p \in DOMAIN T \cup S |-> IF p \in S THEN [ts |-> e.n.ts, l |-> l] ELSE T[p]]
    /\ UNCHANGED <<infl, sub>>
DoRet(e) == infl' = [c \in DOMAIN infl \ {e.c} |-> infl[c]] /\ UNCHANGED <<F, T, sub>>

DoSub(e) == sub' = [i \in DOMAIN sub \cup {e.id} |-> IF i = e.id THEN New(e) ELSE sub[i]] /\ UNCHANGED <<F, T, infl>>
DoPoll(e) == sub' = [sub EXCEPT ![e.id] = Round(@)] /\ UNCHANGED <<F, T, infl>>

DoSync(e) ==
    LET s == sub[e.id] IN
    /\ Judge(l, s.exp = "OK" \/ (s.exp = "error" /\ s.uo), "a sync_response although the subscription must be rejected")
    /\ Judge(l, s.uo \/ s.must \subseteq s.done,
             "not delivered before the sync_response: " \o ToString(s.must \ s.done))
    /\ Judge(l, s.syncs < s.round, "more than one sync_response")
    /\ Judge(l, ~s.uo \/ s.mode # "STREAM" \/ s.msgs = 0, "an updates_only stream does not begin with the sync_response")
    /\ sub' = [sub EXCEPT ![e.id] = [@ EXCEPT !.syncs = @ + 1, !.syncl = l]]

DoMsg(e) == \E s \in {sub[e.id]} : \E sets \in {SetsOf(e.n)} : \E dels \in {DelsOf(e.n)} :
    LET strict == s.mode # "STREAM" IN
    /\ Judge(l, s.exp = "OK" \/ s.exp = "error", "data although the subscription must be rejected: " \o s.exp)
    /\ Judge(l, \A x \in sets : May(s, x[1]), "data of a target the caller is not authorised for")
    /\ Judge(l, ~s.acl \/ e.n.pre.t \in s.allow, "a response of a target the caller is not authorised for")
    /\ Judge(l, \A x \in sets : (IF strict \/ e.n.at THEN SelBy(s, x[1]) \/ (e.n.at /\ AgreeBy(s, x[1])) ELSE AgreeBy(s, x[1])),
             "a leaf that does not match: " \o ToString(sets))
    /\ Judge(l, \A d \in dels : ~strict /\ AgreeBy(s, d), "a delete that does not match")
    /\ Judge(l, sets \subseteq s.held, "a value the leaf did not hold: " \o ToString(sets \ s.held))
    /\ Judge(l, strict => s.syncs < s.round, "data after the sync_response")
    /\ \E V \in {Consume(s.view, e.n)} : \E P \in {{x[1] : x \in sets}} :
          sub' = [sub EXCEPT ![e.id] = [@ EXCEPT
            !.view = V, !.msgs = @ + 1, !.done = @ \cup P,
            !.vts = [p \in DOMAIN s.vts \cup P |-> IF p \in P THEN e.n.ts ELSE s.vts[p]]]]

DoEnd(e) ==
    LET s == sub[e.id] IN
    /\ Judge(l, CASE s.exp = "OK" -> e.code = "OK" \/ (e.code = "NotFound" /\ e.ended /\ s.msgs = 0 /\ s.syncs = 0)
                  [] s.exp = "error" -> (s.uo /\ s.mode = "STREAM") \/ e.code # "OK"
                  [] OTHER -> e.code = s.exp \/ (e.code = "NotFound" /\ e.ended /\ s.exp = "PermissionDenied"),
             "Subscribe returned " \o e.code \o " instead of " \o s.exp)
    /\ Judge(l, (s.exp = "OK" /\ e.code = "OK" /\ s.mode = "ONCE") => s.syncs = 1, "the stream ended without a sync_response")
    /\ Judge(l, (s.exp = "OK" /\ s.mode = "STREAM") => e.ended, "the stream ended while its target is still there")
    /\ sub' = [sub EXCEPT ![e.id] = [@ EXCEPT !.over = TRUE, !.code = e.code]]

(* everything is quiet: the open streams have converged *)
Final(e, i) ==
    \E s \in {sub[i]} :
    \E C \in {{p \in DOMAIN e.content : Wanted(s, p)}} :
    \E V \in {{p \in DOMAIN s.view : SelBy(s, p)}} :
    LET
        Changed == {p \in C : p \in DOMAIN T /\ T[p].l > s.syncl /\ s.syncs > 0}
        Must == IF s.uo THEN Changed ELSE C
    IN
    /\ Judge(l, s.exp # "OK" => s.over \/ s.uo, "a subscription that must be rejected is still there")
    /\ Judge(l, (s.exp = "OK" /\ s.mode = "ONCE") => s.over, "a ONCE subscription does not end")
    /\ Judge(l, (s.exp = "OK" /\ s.mode # "ONCE" /\ ~s.over) => s.syncs = s.round, "no sync_response")
    /\ IF ~(s.exp = "OK" /\ s.mode = "STREAM" /\ ~s.over) THEN TRUE ELSE
        /\ Judge(l, Must \subseteq V, "the subscriber lacks leaves of the cache: " \o ToString(Must \ V))
        /\ Judge(l, V \subseteq C, "the subscriber has leaves the cache does not have: " \o ToString(V \ C))
        /\ Judge(l, \A p \in V \cap C : s.view[p] = e.content[p],
                 "the subscriber has other values than the cache: " \o ToString({p \in V \cap C : s.view[p] # e.content[p]}))
        /\ Judge(l, \A p \in V \cap Must : p \in DOMAIN T => s.vts[p] >= T[p].ts,
                 "the newest update was not delivered: " \o ToString({p \in V \cap Must : p \in DOMAIN T /\ s.vts[p] < T[p].ts}))

ObsAll(obs) ==
    LET P == UNION {{<<t>> \o obs[t].m[i].p : i \in DOMAIN obs[t].m} : t \in DOMAIN obs}
        M == TLCEval([t \in DOMAIN obs |-> ObsMap(obs[t])])
    IN TLCEval([p \in P |-> [v |-> M[p[1]][Tail(p)].v, at |-> M[p[1]][Tail(p)].at]])
DoFinal(e) ==
    /\ \E x \in {[content |-> ObsAll(e.obs)]} : \A i \in DOMAIN sub : Final(x, i)
    /\ UNCHANGED <<F, T, infl, sub>>

Next ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
       CASE e.e = "reset" -> F' = <<>> /\ T' = <<>> /\ infl' = <<>> /\ sub' = <<>>
         [] e.e = "call" -> DoCall(e)
         [] e.e = "feed" -> DoFeed(e)
         [] e.e = "ret"  -> DoRet(e)
         [] e.e = "sub"  -> DoSub(e)
         [] e.e = "poll" -> DoPoll(e)
         [] e.e = "send" -> (IF e.sync THEN DoSync(e) ELSE DoMsg(e)) /\ UNCHANGED <<F, T, infl>>
         [] e.e = "end"  -> DoEnd(e) /\ UNCHANGED <<F, T, infl>>
         [] e.e = "final" -> DoFinal(e)
         [] OTHER -> UNCHANGED <<F, T, infl, sub>> /\ Judge(l, FALSE, e.e)

Spec == Init /\ [][Next]_vars
Consumed == Finished(TLCGet("stats").diameter - 1)
=============================================================================
