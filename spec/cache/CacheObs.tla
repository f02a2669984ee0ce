------------------------------ MODULE CacheObs ------------------------------
(* Reading the recorded events of the cache in the terms of Cache.tla.      *)
EXTENDS Cache, TraceLib

IX(pre, p) == NonEmpty(pre.o) \o Index(pre) \o Index(p)

AbsUps(n) == [i \in DOMAIN n.up |-> [p |-> IX(n.pre, n.up[i].p), v |-> n.up[i].v,
                                     id |-> IF n.at THEN 0 ELSE n.ids[i]]]
AbsDels(n) == [i \in DOMAIN n.del |-> IX(n.pre, n.del[i])]
Abs(n) == [ts |-> n.ts, at |-> n.at, p |-> NonEmpty(n.pre.o) \o Index(n.pre),
           ups |-> AbsUps(n), dels |-> AbsDels(n), av |-> n.av, aid |-> n.aid]

(* content of a target as observed *)
ObsMap(o) == LET P == {o.m[i].p : i \in DOMAIN o.m} IN
    TLCEval([p \in P |-> LET i == CHOOSE i \in DOMAIN o.m : o.m[i].p = p
                 IN [ts |-> o.m[i].ts, v |-> o.m[i].v, at |-> o.m[i].at, id |-> o.m[i].id]])
Tv(m) == TLCEval([p \in DOMAIN m |-> [ts |-> m[p].ts, v |-> m[p].v, at |-> m[p].at]])
DataOf(m) == Restrict(m, Data(m))

(* the consumer of the feed *)
Consume(F, n) ==
    IF n.at THEN FSet(F, FullIndex(n.pre), [v |-> n.av, at |-> TRUE])
    ELSE Fold(LAMBDA G, d : FDel(G, NotiIndex(n.pre, d)),
                  Fold(LAMBDA G, u : FSet(G, NotiIndex(n.pre, u.p), [v |-> u.v, at |-> FALSE]), F, n.up), n.del)
ConsumeAll(F, feed) == Fold(Consume, F, feed)

(* the leaves a feed sets, in order *)
Sets(feed) == Flat([i \in DOMAIN feed |->
    IF feed[i].at THEN <<[p |-> FullIndex(feed[i].pre), e |-> [v |-> feed[i].av, at |-> TRUE]]>>
    ELSE [j \in DOMAIN feed[i].up |-> [p |-> NotiIndex(feed[i].pre, feed[i].up[j].p),
                                       e |-> [v |-> feed[i].up[j].v, at |-> FALSE]]]])

Subsequence(a, b) ==
    Fold(LAMBDA k, x : IF k < Len(a) /\ x = a[k + 1] THEN k + 1 ELSE k, 0, b) = Len(a)
=============================================================================
