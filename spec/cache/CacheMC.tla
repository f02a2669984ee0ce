------------------------------ MODULE CacheMC -------------------------------
(* Bounded model of the cache with a feed consumer and ghost variables.     *)
EXTENDS Cache, Json

CONSTANTS Targets, Elems, MaxLen, Times, Vals, Thr, ED, MaxOps, Gen,
          Mode     \* "single": notifications with one update or delete; "multi": also two

VARIABLES T,      \* target -> state (registered targets only)
          F,      \* the feed's consumer
          top,    \* ghost: <<target, path>> -> greatest timestamp accepted since the last delete
          now, h
vars == <<T, F, top, now, h>>
(* counters that nothing depends on stay out of the view *)
TV == [t \in DOMAIN T |-> <<T[t].m, T[t].latest, T[t].cnt.leaf, T[t].cnt.add - T[t].cnt.del>>]
VView == <<TV, F, top, now, Len(h)>>

cfg == [thr |-> Thr, ed |-> ED]
Paths == UNION {[1..k -> Elems] : k \in 1..MaxLen}
Queries == UNION {[1..k -> Elems \cup {"*"}] : k \in 0..MaxLen}

Up(p, v) == [p |-> p, v |-> v, id |-> <<p, v>>]
AV(ups) == 100 + (IF Len(ups) > 0 THEN ups[1].v ELSE 0)
N(ts, at, p, ups, dels) ==
    [ts |-> ts, at |-> at, p |-> p, ups |-> ups, dels |-> dels, av |-> AV(ups), aid |-> <<p, AV(ups)>>]

Singles == {N(ts, FALSE, <<>>, <<Up(p, v)>>, <<>>) : ts \in Times, p \in Paths, v \in Vals}
      \cup {N(ts, FALSE, <<>>, <<>>, <<q>>) : ts \in Times, q \in Queries}
Atomics == {N(ts, TRUE, p, <<Up(<<"x">>, v)>>, <<>>) : ts \in Times, p \in Paths, v \in Vals}
Multis == {N(ts, FALSE, <<>>, <<Up(p, v), Up(q, v)>>, <<>>) : ts \in Times, p \in Paths, q \in Paths, v \in Vals}
      \cup {N(ts, FALSE, <<>>, <<Up(p, v)>>, <<q>>) : ts \in Times, p \in Paths, q \in Queries, v \in Vals}
      \cup {N(ts, FALSE, <<>>, <<>>, <<p, q>>) : ts \in Times, p \in Queries, q \in Queries}
Notis == CASE Mode = "single" -> Singles
           [] Mode = "atomic" -> Singles \cup Atomics
           [] OTHER -> Singles \cup Multis

Log(op) == /\ h' = Append(h, op)
           /\ Gen => PrintT("@@HIST " \o ToJson(h'))

Init == T = [t \in Targets |-> NewTarget] /\ F = EmptyMap /\ top = EmptyMap /\ now = 0 /\ h = <<>>

Feed(f, F0, t) ==
    LET A[i \in 0..Len(f)] == IF i = 0 THEN F0 ELSE FSet(A[i-1], <<t>> \o f[i].p, f[i].e) IN A[Len(f)]
FeedDel(G, F0, t) == Without(F0, {<<t>> \o p : p \in G})

Update(t, n) ==
    /\ t \in DOMAIN T
    /\ LET r == Submit(cfg, T[t], n, now) IN
       /\ T' = [T EXCEPT ![t] = r.S]
       /\ F' = FeedDel(r.gone, Feed(r.feed, F, t), t)
       /\ LET P == {<<t>> \o p : p \in DOMAIN r.S.m}
          IN top' = [p \in P \cup {q \in DOMAIN top : q[1] # t} |->
                      IF p[1] # t THEN top[p]
                      ELSE IF Tail(p) \notin DOMAIN T[t].m THEN r.S.m[Tail(p)].ts
                      ELSE Max2(top[p], r.S.m[Tail(p)].ts)]
    /\ now' = now
    /\ Log([op |-> "upd", t |-> t, n |-> [n EXCEPT !.av = 0, !.aid = 0, !.ups = [i \in DOMAIN n.ups |-> [p |-> n.ups[i].p, v |-> n.ups[i].v]]]])

Reset(t) ==
    /\ t \in DOMAIN T
    /\ T' = [T EXCEPT ![t] = ResetTarget(@)]
    /\ F' = Without(F, {p \in DOMAIN F : p[1] = t /\ ~IsMeta(Tail(p))})
    /\ top' = Without(top, {p \in DOMAIN top : p[1] = t})
    /\ now' = now /\ Log([op |-> "rst", t |-> t])

Remove(t) ==
    /\ t \in DOMAIN T
    /\ T' = Without(T, {t})
    /\ F' = Without(F, {p \in DOMAIN F : p[1] = t})
    /\ top' = Without(top, {p \in DOMAIN top : p[1] = t})
    /\ now' = now /\ Log([op |-> "rm", t |-> t])

AddT(t) ==
    /\ t \notin DOMAIN T
    /\ T' = Put(T, t, NewTarget) /\ UNCHANGED <<F, top>>
    /\ now' = now /\ Log([op |-> "add", t |-> t])

Tick == now < 2 /\ Thr > 0 /\ now' = now + 1 /\ UNCHANGED <<T, F, top>> /\ Log([op |-> "tick"])

Next == \/ \E t \in Targets : (\E n \in Notis : Update(t, n)) \/ Reset(t) \/ Remove(t) \/ AddT(t)
        \/ Tick

Spec == Init /\ [][Next]_vars
Bound == Len(h) < MaxOps

(* ---- properties ---- *)
FeedReproduces == F = View(T)
PrefixFree == \A t \in DOMAIN T : \A p, q \in DOMAIN T[t].m : ~ProperPrefix(p, q)
Newest == \A t \in DOMAIN T : \A p \in DOMAIN T[t].m : T[t].m[p].ts = top[<<t>> \o p]
Counts == \A t \in DOMAIN T : LET c == T[t].cnt IN
            c.leaf = Cardinality(Data(T[t].m)) /\ c.leaf = c.add - c.del
Latest == \A t \in DOMAIN T : \A p \in Data(T[t].m) : T[t].m[p].ts <= T[t].latest
(* nothing done to one target shows in another *)
Isolated == [][\A t \in DOMAIN T : h' # h /\ (IF "t" \in DOMAIN h'[Len(h')] THEN h'[Len(h')].t # t ELSE TRUE) =>
                    t \in DOMAIN T' /\ T'[t] = T[t]]_vars
(* with a threshold, far-ahead updates never replace a leaf *)
NoFuture == [][Thr > 0 => \A t \in DOMAIN T \cap DOMAIN T' : \A p \in DOMAIN T[t].m \cap DOMAIN T'[t].m :
                T'[t].m[p].ts > T[t].m[p].ts => (T'[t].m[p].ts - now <= Thr \/ T'[t].m[p].ts - T[t].latest <= Thr)]_vars
(* only a delete that is newer than a leaf removes it (but for resets)      *)
DeleteExact == [][h' # h /\ h'[Len(h')].op = "upd" =>
    LET t == h'[Len(h')].t  n == h'[Len(h')].n IN
    /\ \A p \in DOMAIN T[t].m \ DOMAIN T'[t].m :
          T[t].m[p].ts < n.ts /\ \E i \in DOMAIN n.dels : Selects(n.dels[i], p)
    /\ \A p \in DOMAIN T'[t].m : \A i \in DOMAIN n.dels : Selects(n.dels[i], p) => T'[t].m[p].ts >= n.ts]_vars

(* ---- deliberately broken variants ---- *)
BadUnchanged(S, p, e) == p \in DOMAIN S.m /\ ~e.at /\ (S.m[p].at \/ S.m[p].v = e.v)
BadVictims(S, q, ts) == {p \in DOMAIN S.m : Selects(q, p) /\ S.m[p].ts <= ts}
BadSelects(q, p) == Len(q) <= Len(p) /\ \A i \in 1..Len(q) : q[i] = "*" \/ q[i] = p[i]
BadClass(c, S, p, e, t) ==
    IF p \in DOMAIN S.m THEN (IF e.ts < S.m[p].ts THEN "stale" ELSE "replace")
    ELSE IF Clash(S.m, p) THEN "clash" ELSE "new"
=============================================================================
