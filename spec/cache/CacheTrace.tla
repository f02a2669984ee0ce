----------------------------- MODULE CacheTrace -----------------------------
(* C02: what is stored after every call, and which calls are refused.       *)
EXTENDS CacheObs
VARIABLES l, T, conf
vars == <<l, T, conf>>

Init == l = 1 /\ T = EmptyMap /\ conf = [ed |-> TRUE, thr |-> 0]

(* what was observed, with the latest timestamp the specification knows *)
Resync(e, lat) == TLCEval([t \in {x \in DOMAIN e.obs : e.obs[x].ok} |->
    [NewTarget EXCEPT !.m = ObsMap(e.obs[t]), !.latest = lat[t]]])
Lat(t) == IF t \in DOMAIN T THEN T[t].latest ELSE NoLatest

(* the same value again with the same timestamp but encoded differently:    *)
(* the property does not say whether that is "identical"                    *)
Gray(S, n) == \E i \in DOMAIN n.ups : n.ups[i].p \in DOMAIN S.m /\ S.m[n.ups[i].p].ts = n.ts
                  /\ S.m[n.ups[i].p].v = n.ups[i].v /\ S.m[n.ups[i].p].id # n.ups[i].id
GrayAt(S, n) == n.at /\ n.p \in DOMAIN S.m /\ S.m[n.p].ts = n.ts /\ S.m[n.p].v = n.av /\ S.m[n.p].id # n.aid

Expect(r, n) ==
    IF \A i \in DOMAIN r.classes : Accepted(r.classes[i]) THEN "ok"
    ELSE IF Len(r.classes) > 1 THEN "any"
    ELSE IF Len(n.dels) > 0 THEN "any"
    ELSE IF r.classes[1] = "stale" THEN "stale"
    ELSE IF r.classes[1] = "future" THEN "future" ELSE "any"

Upd(e) ==
    IF e.t \notin DOMAIN T THEN
        /\ Judge(l, e.err # "ok", "an update of an unknown target is not refused")
        /\ T' = Resync(e, TLCEval([x \in DOMAIN e.obs |-> Lat(x)]))
    ELSE \E n \in {TLCEval(Abs(e.n))} : \E S \in {T[e.t]} :
         \E r \in {TLCEval(Submit([ed |-> conf.ed, thr |-> conf.thr], S, n, e.now))} :
         \E x \in {Expect(r, n)} : \E o \in {Tv(ObsMap(e.obs[e.t]))} :
        /\ Judge(l, e.obs[e.t].ok, "the target is gone")
        /\ Judge(l, NoDup([i \in DOMAIN e.obs[e.t].m |-> e.obs[e.t].m[i].p]), "a leaf is reported twice")
        /\ Judge(l, o = Tv(r.S.m), "the stored leaves are not those the specification allows: expected " \o ToString(Tv(r.S.m)))
        /\ Judge(l, Gray(S, n) \/ GrayAt(S, n) \/ (IF x = "any" THEN e.err # "ok" ELSE e.err = x),
                 "result " \o e.err \o ", expected " \o x \o " " \o ToString(r.classes))
        /\ T' = Resync(e, TLCEval([y \in DOMAIN e.obs |-> IF y = e.t THEN r.S.latest ELSE Lat(y)]))

Next ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       IF e.e = "reset" THEN
           /\ T' = [t \in ToSet(e.targets) |-> NewTarget]
           /\ conf' = [ed |-> e.ed, thr |-> e.thr]
       ELSE IF e.e = "op" THEN
           /\ conf' = conf
           /\ IF e.op = "upd" THEN Upd(e)
              ELSE T' = Resync(e, TLCEval([t \in DOMAIN e.obs |->
                       IF e.op \in {"rst", "rm", "add"} /\ t = e.t THEN NoLatest ELSE Lat(t)]))
       ELSE /\ UNCHANGED <<T, conf>>
            /\ Judge(l, e.e = "end", e.e)

Spec == Init /\ [][Next]_vars
Consumed == Finished(TLCGet("stats").diameter - 1)
=============================================================================
