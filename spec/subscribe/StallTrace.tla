----------------------------- MODULE StallTrace -----------------------------
(* C08: slow and stalled subscribers.  Every event is one action of the     *)
(* harness followed by quiescence; each stream then reports what its sends  *)
(* have completed, and whether a send is still blocked and since when.      *)
(*                                                                          *)
(* Accounting: for a stream and a leaf, every announcement it matches is    *)
(* either a message or counted as a duplicate of one; lo..hi is what may    *)
(* have been queued (the initial walk may add a leaf once per query), rec   *)
(* what was delivered, in messages plus their duplicates.                   *)
EXTENDS CacheObs

VARIABLES l, cfg, st
vars == <<l, cfg, st>>
Init == l = 1 /\ cfg = <<>> /\ st = <<>>

SelBy(s, fp) == /\ Len(fp) > 0 /\ (s.t = "*" \/ fp[1] = s.t)
                /\ \E i \in DOMAIN s.q : Selects(s.q[i], Tail(fp))
NSel(s, fp) == Cardinality({i \in DOMAIN s.q : Selects(s.q[i], Tail(fp))})
AgreeBy(s, fp) == /\ Len(fp) > 0 /\ (s.t = "*" \/ fp[1] = s.t \/ fp[1] = "*")
                  /\ \E i \in DOMAIN s.q : Agree(s.q[i], Tail(fp))
Offered(s, n) == \/ \E i \in DOMAIN n.up : AgreeBy(s, NotiIndex(n.pre, n.up[i].p))
                 \/ \E i \in DOMAIN n.del : AgreeBy(s, NotiIndex(n.pre, n.del[i]))
(* the leaf a message is about; deletes are told by their path *)
IsDel(n) == Len(n.del) > 0
Subject(n) == IF n.at THEN FullIndex(n.pre)
              ELSE IF IsDel(n) THEN NotiIndex(n.pre, n.del[1]) ELSE NotiIndex(n.pre, n.up[1].p)

Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Add(f, k, n) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN Get(f, k, 0) + n ELSE f[x]])

Content(obs) == LET P == UNION {{<<t>> \o obs[t].m[i].p : i \in DOMAIN obs[t].m} : t \in DOMAIN obs}
        M == TLCEval([t \in DOMAIN obs |-> ObsMap(obs[t])])
    IN TLCEval([p \in P |-> [v |-> M[p[1]][Tail(p)].v, at |-> M[p[1]][Tail(p)].at]])

NewStream(e, C) ==
    LET s0 == [t |-> e.pre.t, q |-> [i \in DOMAIN e.paths |-> Joined(e.pre, e.paths[i])]]
        P == IF e.uo THEN {} ELSE {p \in DOMAIN C : SelBy(s0, p)}
    IN [t |-> s0.t, q |-> s0.q, uo |-> e.uo, mode |-> e.mode,
        lo |-> [p \in P |-> 1], hi |-> [p \in P |-> NSel(s0, p)],
        rec |-> <<>>, dl |-> <<>>, drec |-> <<>>, view |-> <<>>, syncs |-> 0, over |-> FALSE,
        gone |-> FALSE, fed |-> {},
        (* since the queue was last empty *)
        pendL |-> P, pendD |-> 0, inc |-> <<>>, blk |-> FALSE, infl |-> 0]

(* what an announcement adds to a stream's account *)
Feed1(s, n) ==
    IF s.over \/ s.mode # "STREAM" \/ ~Offered(s, n) THEN s
    ELSE IF IsDel(n) THEN [s EXCEPT !.dl = Add(@, Subject(n), 1), !.pendD = @ + 1,
                                    !.inc = [p \in DOMAIN @ \cup s.pendL |-> Get(@, p, 0) + (IF Selects(Subject(n), p) THEN 1 ELSE 0)]]
    ELSE [s EXCEPT !.lo = Add(@, Subject(n), 1), !.hi = Add(@, Subject(n), 1), !.pendL = @ \cup {Subject(n)},
                   !.fed = @ \cup {Subject(n)}]
FeedAll(s, feed) == LET G[i \in 0..Len(feed)] == IF i = 0 THEN s ELSE Feed1(G[i-1], feed[i]) IN G[Len(feed)]

Got1(s, m) ==
    IF m.sync THEN [s EXCEPT !.syncs = @ + 1]
    ELSE IF IsDel(m.n) THEN [s EXCEPT !.drec = Add(@, Subject(m.n), 1), !.view = Consume(@, m.n)]
    ELSE [s EXCEPT !.rec = Add(@, Subject(m.n), 1 + m.dup), !.view = Consume(@, m.n)]
GotAll(s, got) == LET G[i \in 0..Len(got)] == IF i = 0 THEN s ELSE Got1(G[i-1], got[i]) IN G[Len(got)]

Count(got, p) == Cardinality({i \in DOMAIN got : ~got[i].sync /\ ~IsDel(got[i].n) /\ Subject(got[i].n) = p})
NDel(got) == Cardinality({i \in DOMAIN got : ~got[i].sync /\ IsDel(got[i].n)})

(* one stream after one action *)
Step(e, o, s, u, C) ==
    LET nm == "stream " \o ToString(o.id) \o " "
        gone == s.gone \/ (e.op = "rm" /\ e.t = s.t)
        late == o.blk /\ e.now - o.since > cfg.timeout
        early == ~o.blk \/ e.now - o.since < cfg.timeout
        (* the messages after the one that was being sent *)
        rest == IF s.blk /\ Len(o.got) > 0 THEN Tail(o.got) ELSE o.got
        drained == ~o.blk /\ o.st = "open"
    IN
    /\ Judge(l, ~late, nm \o "is blocked for longer than the timeout and still there")
    /\ Judge(l, o.st # "open" => (s.over \/ gone \/ (e.op = "cancel" /\ e.t = ToString(o.id)) \/ o.timedout \/ (s.mode = "ONCE" /\ o.st = "ok")),
             nm \o "ended with " \o o.st \o " although no send was blocked for the timeout")
    /\ Judge(l, (o.timedout /\ ~s.over) => o.st = "err", nm \o "ended without an error after the timeout")
    /\ Judge(l, s.over => Len(o.got) = 0, nm \o "receives after its end")
    (* backlog and duplicates of what was pending *)
    /\ IF s.over \/ s.mode # "STREAM" THEN TRUE ELSE
        /\ Judge(l, \A i \in DOMAIN rest : (~rest[i].sync /\ ~IsDel(rest[i].n)) =>
                        (~s.blk \/ Count(rest, Subject(rest[i].n)) <= 1 + Get(s.inc, Subject(rest[i].n), 0)),
                 nm \o "has several pending messages of a leaf")
        /\ Judge(l, \A i \in DOMAIN o.got : o.got[i].odup = 0, nm \o "duplicates reported on another update")
        /\ Judge(l, ~s.blk \/ o.blk \/ o.qmax <= Cardinality(s.pendL) + s.pendD + 1
                    + Cardinality({p \in DOMAIN s.inc : s.inc[p] > 0}),
                 nm \o "backlog of " \o ToString(o.qmax) \o " for " \o ToString(Cardinality(s.pendL)) \o " leaves and " \o ToString(s.pendD) \o " deletes")
    /\ IF ~(drained /\ ~s.over /\ s.mode = "STREAM" /\ ~gone) THEN TRUE ELSE
        LET V == {p \in DOMAIN u.view : SelBy(u, p)}
            W == {p \in DOMAIN C : SelBy(u, p)}
            M == IF s.uo THEN W \cap u.fed ELSE W
        IN
        /\ Judge(l, u.syncs = 1, nm \o "has " \o ToString(u.syncs) \o " sync_responses")
        /\ Judge(l, u.drec = u.dl, nm \o "did not receive every delete once: " \o ToString(u.dl))
        /\ Judge(l, M \subseteq V /\ V \subseteq W /\ \A p \in V \cap W : u.view[p] = C[p],
                 nm \o "does not have the newest values: " \o ToString({p \in W \cup V : p \notin V \cap W \/ u.view[p] # C[p]}))
        /\ Judge(l, cfg.nodup \/ \A p \in DOMAIN u.lo \cup DOMAIN u.rec :
                        Get(u.rec, p, 0) >= Get(u.lo, p, 0) /\ Get(u.rec, p, 0) <= Get(u.hi, p, 0),
                 nm \o "messages and duplicates do not add up: " \o
                 ToString({<<p, Get(u.rec, p, 0), Get(u.lo, p, 0), Get(u.hi, p, 0)>> :
                     p \in {x \in DOMAIN u.lo \cup DOMAIN u.rec : Get(u.rec, x, 0) < Get(u.lo, x, 0) \/ Get(u.rec, x, 0) > Get(u.hi, x, 0)}}))
        /\ Judge(l, ~cfg.nodup \/ \A i \in DOMAIN o.got : o.got[i].sync \/ o.got[i].dup = 0, nm \o "reports duplicates")

After(e, o, u) ==
    [u EXCEPT !.over = o.st # "open", !.blk = o.blk,
              !.gone = @ \/ (e.op = "rm" /\ e.t = u.t),
              !.pendL = IF o.blk THEN @ ELSE {}, !.pendD = IF o.blk THEN @ ELSE 0, !.inc = IF o.blk THEN @ ELSE <<>>]

Next ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
       CASE e.e = "reset" -> cfg' = [timeout |-> e.timeout, nodup |-> e.nodup] /\ st' = <<>>
         [] e.e = "op" ->
            (* quantifiers over singletons: evaluated once *)
            /\ Judge(l, ~e.waits, e.op \o " waits for a subscriber")
            /\ \E C \in {Content(e.obs)} :
               \E S \in {TLCEval([i \in DOMAIN e.streams |-> FeedAll(IF i \in DOMAIN st THEN st[i] ELSE NewStream(e.sub, C), e.feed)])} :
               \E U \in {TLCEval([i \in DOMAIN e.streams |-> GotAll(S[i], e.streams[i].got)])} :
                  /\ \A i \in DOMAIN e.streams : Step(e, e.streams[i], S[i], U[i], C)
                  /\ st' = [i \in DOMAIN e.streams |-> After(e, e.streams[i], U[i])]
            /\ UNCHANGED cfg
         [] OTHER -> UNCHANGED <<cfg, st>> /\ Judge(l, FALSE, e.e)

Spec == Init /\ [][Next]_vars
Consumed == Finished(TLCGet("stats").diameter - 1)
=============================================================================
