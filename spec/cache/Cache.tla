------------------------------- MODULE Cache --------------------------------
(* The telemetry cache (package cache): per target, a prefix-free map from  *)
(* index paths to the newest accepted update, counters, and a feed of       *)
(* notifications from which a consumer can rebuild the content.             *)
(*                                                                          *)
(* An abstract notification is                                              *)
(*   [ts, at, p |-> index of the prefix, ups |-> Seq([p, v, id]),           *)
(*    dels |-> Seq(query path), av, aid]                                    *)
(* with full index paths (without the target); an atomic one is a single    *)
(* leaf at p whose value av stands for all its updates.  id identifies the  *)
(* exact message ("identical" is more than an equal value).                 *)
EXTENDS GPath, TLC

MetaRoot == "meta"
IsMeta(p) == Len(p) > 0 /\ p[1] = MetaRoot

EmptyMap == <<>>
ProperPrefix(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
Below(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Clash(m, p) == \E q \in DOMAIN m : ProperPrefix(q, p) \/ ProperPrefix(p, q)
Put(m, p, e) == TLCEval([q \in DOMAIN m \cup {p} |-> IF q = p THEN e ELSE m[q]])
Without(m, S) == TLCEval([q \in DOMAIN m \ S |-> m[q]])
Restrict(m, S) == TLCEval([q \in S |-> m[q]])
Data(m) == {p \in DOMAIN m : ~IsMeta(p)}
Max2(a, b) == IF a > b THEN a ELSE b

ZeroCnt == [upd |-> 0, sup |-> 0, stale |-> 0, fut |-> 0, empty |-> 0, add |-> 0, del |-> 0, leaf |-> 0]
NoLatest == -1

(* state of a target *)
NewTarget == [m |-> EmptyMap, latest |-> NoLatest, cnt |-> ZeroCnt, sync |-> FALSE, conn |-> FALSE]

----------------------------------------------------------------------------
(* One update e = [ts, v, at, id] for path p, received at time now.         *)
(* cfg = [thr |-> future threshold (0: none), ed |-> event driven].         *)
Class(cfg, S, p, e, now) ==
    IF p = <<>> \/ p = <<MetaRoot>> THEN "bad"
    ELSE IF p \in DOMAIN S.m THEN
        LET old == S.m[p] IN
        IF e.ts < old.ts THEN "stale"
        ELSE IF e.ts = old.ts THEN (IF e.id = old.id THEN "stale" ELSE "replace")
        ELSE IF cfg.thr > 0 /\ e.ts - now > cfg.thr /\ S.latest # NoLatest /\ e.ts - S.latest > cfg.thr THEN "future"
        ELSE "replace"
    ELSE IF Clash(S.m, p) THEN "clash" ELSE "new"

Accepted(c) == c \in {"new", "replace"}

(* accepted without changing the leaf's value: may be withheld from the feed *)
Unchanged(S, p, e) == /\ p \in DOMAIN S.m /\ ~e.at /\ ~S.m[p].at /\ S.m[p].v = e.v

(* n: how many updates e stands for (more than one only if atomic) *)
Apply1(cfg, S, p, e, n, now) ==
    LET c == Class(cfg, S, p, e, now)
        quiet == Accepted(c) /\ cfg.ed /\ Unchanged(S, p, e)
        S1 == CASE c = "stale"  -> [S EXCEPT !.cnt.stale = @ + 1]
                [] c = "future" -> [S EXCEPT !.cnt.fut = @ + 1]
                [] Accepted(c)  ->
                    [S EXCEPT !.m = Put(S.m, p, e),
                              !.latest = IF IsMeta(p) THEN @ ELSE Max2(@, e.ts),
                              !.cnt.sup = @ + (IF quiet THEN 1 ELSE 0),
                              !.cnt.upd = @ + (IF quiet THEN 0 ELSE n),
                              !.cnt.add = @ + (IF c = "new" /\ ~IsMeta(p) THEN 1 ELSE 0),
                              !.cnt.leaf = @ + (IF c = "new" /\ ~IsMeta(p) THEN 1 ELSE 0)]
                [] OTHER -> S
    IN [S |-> S1, class |-> c,
        feed |-> IF Accepted(c) /\ ~quiet THEN <<[k |-> "set", p |-> p, e |-> e]>> ELSE <<>>]

(* A delete of query path q at time ts.                                     *)
Victims(S, q, ts) == {p \in DOMAIN S.m : Selects(q, p) /\ S.m[p].ts < ts}
Delete1(S, q, ts) ==
    LET V == Victims(S, q, ts)
        d == Cardinality({p \in V : ~IsMeta(p)})
    IN [S |-> [S EXCEPT !.m = Without(S.m, V), !.cnt.upd = @ + 1, !.cnt.del = @ + d, !.cnt.leaf = @ - d],
        gone |-> V]

(* A whole notification: its updates in order, then its deletes.            *)
Entry(n, i) == [ts |-> n.ts, v |-> n.ups[i].v, at |-> FALSE, id |-> n.ups[i].id]
AEntry(n) == [ts |-> n.ts, v |-> n.av, at |-> TRUE, id |-> n.aid]

Positions(s) == TLCEval([i \in DOMAIN s |-> i])
Join(q, r) == [S |-> r.S, classes |-> Append(q.classes, r.class), feed |-> q.feed \o r.feed, gone |-> q.gone]
AddUpdate(cfg, n, now, q, i) == TLCEval(Join(q, Apply1(cfg, q.S, n.ups[i].p, Entry(n, i), 1, now)))
Minus(q, r) == [q EXCEPT !.S = r.S, !.gone = @ \cup r.gone]
SubmitDels(n, u) == Fold(LAMBDA q, d : TLCEval(Minus(q, Delete1(q.S, d, n.ts))), u, n.dels)

Submit(cfg, S, n, now) ==
    IF n.at THEN
        IF Len(n.dels) > 0 THEN [S |-> S, classes |-> <<"bad">>, feed |-> <<>>, gone |-> {}]
        ELSE IF Len(n.ups) = 0 THEN [S |-> [S EXCEPT !.cnt.empty = @ + 1], classes |-> <<>>, feed |-> <<>>, gone |-> {}]
        ELSE LET r == Apply1(cfg, S, n.p, AEntry(n), Len(n.ups), now)
             IN [S |-> r.S, classes |-> <<r.class>>, feed |-> r.feed, gone |-> {}]
    ELSE IF Len(n.ups) + Len(n.dels) = 0 THEN [S |-> [S EXCEPT !.cnt.empty = @ + 1], classes |-> <<>>, feed |-> <<>>, gone |-> {}]
    ELSE
        SubmitDels(n, Fold(LAMBDA q, i : AddUpdate(cfg, n, now, q, i),
                               [S |-> S, classes |-> <<>>, feed |-> <<>>, gone |-> {}], Positions(n.ups)))

(* A reset keeps the metadata leaves (they are refreshed) and nothing else. *)
ResetTarget(S) == [S EXCEPT !.m = Restrict(S.m, {p \in DOMAIN S.m : IsMeta(p)}),
                            !.latest = NoLatest, !.cnt = ZeroCnt, !.sync = FALSE, !.conn = FALSE]

----------------------------------------------------------------------------
(* A consumer of the feed: F maps paths (target first) to [v, at].          *)
FVal(e) == [v |-> e.v, at |-> e.at]
FSet(F, p, e) ==
    LET G == IF e.at THEN Without(F, {q \in DOMAIN F : Below(p, q)}) ELSE F
    IN Put(G, p, FVal(e))
FDel(F, q) == Without(F, {p \in DOMAIN F : Selects(q, p)})

(* what a consumer should hold: everything stored for every target          *)
View(T) == LET P == UNION {{<<t>> \o p : p \in DOMAIN T[t].m} : t \in DOMAIN T}
           IN TLCEval([p \in P |-> FVal(T[p[1]].m[Tail(p)])])
=============================================================================
