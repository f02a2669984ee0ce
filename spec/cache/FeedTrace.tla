----------------------------- MODULE FeedTrace ------------------------------
(* C03: the change feed reproduces the content.                             *)
EXTENDS CacheObs
VARIABLES l, F, T, conf
vars == <<l, F, T, conf>>

Init == l = 1 /\ F = EmptyMap /\ T = EmptyMap /\ conf = [ed |-> TRUE, thr |-> 0]

Lat(t) == IF t \in DOMAIN T THEN T[t].latest ELSE NoLatest
Resync(e, lat) == TLCEval([t \in {x \in DOMAIN e.obs : e.obs[x].ok} |->
    [NewTarget EXCEPT !.m = ObsMap(e.obs[t]), !.latest = lat[t]]])
Required(S, n, t, r) ==
    SelectSeq(TLCEval([i \in DOMAIN r.feed |-> [p |-> <<t>> \o r.feed[i].p, e |-> FVal(r.feed[i].e)]]),
              LAMBDA x : ~(LET p == Tail(x.p) IN p \in DOMAIN S.m /\ S.m[p].ts = n.ts /\ FVal(S.m[p]) = x.e))

Step(e) ==
    \E F1 \in {TLCEval(ConsumeAll(F, e.feed))} :
    \E O \in {TLCEval([t \in {x \in DOMAIN e.obs : e.obs[x].ok} |-> [m |-> ObsMap(e.obs[t])]])} :
    \E V \in {View(O)} :
    /\ Judge(l, \A i \in DOMAIN e.feed : "junk" \notin DOMAIN e.feed[i], "not a notification in the feed")
    /\ Judge(l, F1 = V, "the feed does not reproduce the content: consumer " \o ToString(F1) \o " content " \o ToString(V))
    /\ F' = V
    /\ IF e.op = "upd" THEN
         \E n \in {TLCEval(Abs(e.n))} :
         /\ Judge(l, e.same, "the caller's notification was modified")
         /\ IF e.t \in DOMAIN T THEN
              \E r \in {TLCEval(Submit([ed |-> conf.ed, thr |-> conf.thr], T[e.t], n, e.now))} :
              /\ Judge(l, Subsequence(Required(T[e.t], n, e.t, r), Sets(e.feed)), "a change is missing from the feed or out of order")
              /\ Judge(l, IF Len(n.ups) + Len(n.dels) < 2 THEN TRUE ELSE Tv(ObsMap(e.obs[e.t])) = Tv(r.S.m),
                       "not the effect of the notification's updates then deletes one at a time")
              /\ T' = Resync(e, TLCEval([y \in DOMAIN e.obs |-> IF y = e.t THEN r.S.latest ELSE Lat(y)]))
            ELSE /\ Judge(l, Len(e.feed) = 0, "feed for a refused update")
                 /\ T' = Resync(e, TLCEval([y \in DOMAIN e.obs |-> Lat(y)]))
       ELSE T' = Resync(e, TLCEval([t \in DOMAIN e.obs |-> IF e.op \in {"rst", "rm", "add"} /\ t = e.t THEN NoLatest ELSE Lat(t)]))

Next ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       IF e.e = "reset" THEN
           /\ T' = [t \in ToSet(e.targets) |-> NewTarget] /\ F' = EmptyMap
           /\ conf' = [ed |-> e.ed, thr |-> e.thr]
       ELSE IF e.e = "op" THEN conf' = conf /\ Step(e)
       ELSE /\ UNCHANGED <<F, T, conf>>
            /\ Judge(l, e.e = "end" /\ e.same, IF e.e = "end" THEN "a caller's notification was modified later on" ELSE e.e)

Spec == Init /\ [][Next]_vars
Consumed == Finished(TLCGet("stats").diameter - 1)
=============================================================================
