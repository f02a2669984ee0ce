----------------------------- MODULE MetaTrace ------------------------------
(* C15: the counters of a target tell the truth.                            *)
EXTENDS CacheObs
VARIABLES l, T, conf, c
vars == <<l, T, conf, c>>

Init == l = 1 /\ T = EmptyMap /\ conf = [ed |-> TRUE, thr |-> 0] /\ c = EmptyMap

Lat(t) == IF t \in DOMAIN T THEN T[t].latest ELSE NoLatest
Resync(e, lat) == TLCEval([t \in {x \in DOMAIN e.obs : e.obs[x].ok} |->
    [NewTarget EXCEPT !.m = ObsMap(e.obs[t]), !.latest = lat[t]]])

Zero == [upd |-> 0, sup |-> 0, stale |-> 0, fut |-> 0, empty |-> 0, add |-> 0, del |-> 0, leaf |-> 0, sync |-> FALSE, conn |-> FALSE]
Size(seq, P(_)) == Cardinality({i \in DOMAIN seq : P(seq[i])})

(* the leaf count is right after every call *)
Leafs(e) == \A t \in DOMAIN T' :
    /\ Judge(l, e.cnt[t].leaf = Cardinality(Data(T'[t].m)), "the leaf count is not the number of leaves")
    /\ Judge(l, e.cnt[t].leaf = e.cnt[t].add - e.cnt[t].del, "the leaf count is not leaves added minus leaves deleted")

Gray(S, n) == IF n.at THEN n.p \in DOMAIN S.m /\ S.m[n.p].ts = n.ts /\ S.m[n.p].v = n.av /\ S.m[n.p].id # n.aid
              ELSE \E i \in DOMAIN n.ups : n.ups[i].p \in DOMAIN S.m /\ S.m[n.ups[i].p].ts = n.ts
                        /\ S.m[n.ups[i].p].v = n.ups[i].v /\ S.m[n.ups[i].p].id # n.ups[i].id
Errors(n, r) == IF n.at /\ Len(n.dels) > 0 THEN 0
                ELSE IF n.at /\ r.classes # <<>> /\ ~(r.classes[1] \in {"stale", "future"} \/ Accepted(r.classes[1]))
                     THEN Len(n.ups) ELSE Size(r.classes, LAMBDA x : ~Accepted(x) /\ x \notin {"stale", "future"})
Diffs(e) == TLCEval([k \in DOMAIN Zero \ {"sync", "conn"} |-> e.cnt[e.t][k] - c[e.t][k]])

Count(e, n, r) ==
    \E t \in {e.t} : \E d \in {Diffs(e)} :
    \E u \in {IF n.at /\ Len(n.dels) > 0 THEN 0 ELSE Len(n.ups)} :
    \E nd \in {IF n.at THEN 0 ELSE Len(n.dels)} :
    \E bad \in {Errors(n, r)} : \E gray \in {Gray(T[t], n)} :
    \E stale \in {Size(r.classes, LAMBDA x : x = "stale")} :
    \E fut \in {Size(r.classes, LAMBDA x : x = "future")} :
    \E accepted \in {Size(r.classes, Accepted)} :
    \E fedUps \in {Len(Sets(e.feed))} :
    \E s \in {d.upd + d.sup + d.stale + d.fut} :
    /\ Judge(l, d.empty = (IF Len(n.ups) + Len(n.dels) = 0 THEN 1 ELSE 0), "empty notifications are miscounted")
    /\ Judge(l, gray \/ (IF n.at THEN d.stale \in {stale, stale * u} ELSE d.stale = stale), "stale updates are miscounted")
    /\ Judge(l, IF n.at THEN d.fut \in {fut, fut * u} ELSE d.fut = fut, "future updates are miscounted")
    /\ Judge(l, gray \/ n.at \/ d.sup = accepted - fedUps, "suppressed updates are miscounted")
    /\ Judge(l, (n.at \/ ~conf.ed) => d.sup = 0, "suppressed updates are miscounted")
    /\ Judge(l, gray \/ n.at \/ (d.upd >= fedUps /\ d.upd <= fedUps + nd), "updates are miscounted")
    /\ Judge(l, gray \/ ~n.at \/ d.upd \in {accepted, accepted * u}, "updates are miscounted")
    /\ Judge(l, n.at \/ (s >= u - bad /\ s <= u - bad + nd),
             "an update is counted twice or not at all")
    /\ Judge(l, d.add = r.S.cnt.add, "added leaves are miscounted")
    /\ Judge(l, d.del = r.S.cnt.del, "deleted leaves are miscounted")
    /\ Judge(l, e.cnt[t].sync = c[t].sync /\ e.cnt[t].conn = c[t].conn, "an update changes the state of the session")

Known == {"upd", "sup", "stale", "fut", "empty", "add", "del", "leaf", "sync", "conn"}
Export(e) == \A t \in DOMAIN T' :
    /\ Judge(l, \A k \in Known : k \in DOMAIN e.exp[t] /\ e.exp[t][k] = e.cnt[t][k], "exported metadata differs from the counters")
    /\ Judge(l, T'[t].latest # NoLatest => "latest" \in DOMAIN e.exp[t] /\ e.exp[t].latest = T'[t].latest,
             "the exported latest timestamp is not " \o ToString(T'[t].latest))
    /\ Judge(l, \A k \in Known \ {"upd"} : e.cnt[t][k] = c[t][k], "the refresh changes the counters")

Step(e) ==
    /\ CASE e.op = "upd" /\ e.t \in DOMAIN T ->
              \E n \in {TLCEval(Abs(e.n))} :
              \E r \in {TLCEval(Submit([ed |-> conf.ed, thr |-> conf.thr], T[e.t], n, e.now))} :
              T' = Resync(e, TLCEval([y \in DOMAIN e.obs |-> IF y = e.t THEN r.S.latest ELSE Lat(y)])) /\ Count(e, n, r)
         [] OTHER -> T' = Resync(e, TLCEval([t \in DOMAIN e.obs |-> IF e.op \in {"rst", "rm", "add"} /\ t = e.t THEN NoLatest ELSE Lat(t)]))
    /\ Leafs(e)
    /\ c' = TLCEval([t \in DOMAIN T' |-> e.cnt[t]])
    /\ CASE e.op = "meta" -> Export(e)
         [] e.op = "sync" /\ e.t \in DOMAIN T -> Judge(l, e.cnt[e.t] = [c[e.t] EXCEPT !.sync = TRUE, !.upd = e.cnt[e.t].upd, !.sup = e.cnt[e.t].sup], "not synced after sync")
         [] e.op = "conn" /\ e.t \in DOMAIN T -> Judge(l, e.cnt[e.t] = [c[e.t] EXCEPT !.conn = TRUE, !.upd = e.cnt[e.t].upd, !.sup = e.cnt[e.t].sup], "not connected after connect")
         [] e.op \in {"cerr", "size"} -> Judge(l, \A t \in DOMAIN T : e.cnt[t] = [c[t] EXCEPT !.upd = e.cnt[t].upd, !.sup = e.cnt[t].sup], "counters change")
         [] e.op = "rst" /\ e.t \in DOMAIN T -> Judge(l, \A k \in {"leaf", "add", "del"} : e.cnt[e.t][k] = 0, "leaf counters are not zero after a reset")
         [] OTHER -> TRUE

Next ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       IF e.e = "reset" THEN
           /\ T' = [t \in ToSet(e.targets) |-> NewTarget] /\ c' = [t \in ToSet(e.targets) |-> Zero]
           /\ conf' = [ed |-> e.ed, thr |-> e.thr]
       ELSE IF e.e = "op" THEN conf' = conf /\ Step(e)
       ELSE UNCHANGED <<T, c, conf>> /\ Judge(l, e.e = "end", e.e)

Spec == Init /\ [][Next]_vars
Consumed == Finished(TLCGet("stats").diameter - 1)
=============================================================================
