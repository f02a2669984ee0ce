--------------------------- MODULE MetaConcTrace ----------------------------
(* C15 (and C03): a target's stream interleaved with the refresh of its     *)
(* metadata.  The refresh is not a step of the specification: whatever the  *)
(* schedule, the final state is that of the stream alone.                   *)
EXTENDS CacheObs
VARIABLES l, t, S, conf, sync, conn
vars == <<l, t, S, conf, sync, conn>>

Init == l = 1 /\ t = "" /\ S = NewTarget /\ conf = [ed |-> TRUE, thr |-> 0] /\ sync = FALSE /\ conn = FALSE

Sum(c) == c.upd + c.sup + c.stale + c.fut

Final(e) ==
    LET m == ObsMap(e.obs[t])  c == e.cnt[t]  x == e.exp[t]
        V == [p \in {<<t>> \o q : q \in DOMAIN m} |-> FVal(m[Tail(p)])]
        F == ConsumeAll(EmptyMap, e.feed)
    IN
    /\ Judge(l, Tv(DataOf(m)) = Tv(DataOf(S.m)), "the stored leaves are not those of the stream")
    /\ Judge(l, c.leaf = Cardinality(Data(m)), "the leaf count is not the number of leaves")
    /\ Judge(l, c.leaf = c.add - c.del, "the leaf count is not leaves added minus leaves deleted")
    /\ Judge(l, c.stale = S.cnt.stale /\ c.empty = S.cnt.empty /\ c.add = S.cnt.add /\ c.del = S.cnt.del, "a counter differs from that of the stream")
    /\ Judge(l, c.sync = sync, "synced is not what the stream said last")
    /\ Judge(l, c.conn = conn, "connected is not what the stream said last")
    /\ Judge(l, \A k \in {"upd", "sup", "stale", "fut", "empty", "add", "del", "leaf", "sync", "conn"} : k \in DOMAIN x /\ x[k] = c[k],
             "exported metadata differs from the counters")
    /\ Judge(l, S.latest # NoLatest => "latest" \in DOMAIN x /\ x.latest = S.latest, "the exported latest timestamp is not that of the stream")
    /\ Judge(l, F = V, "the feed does not reproduce the content: consumer " \o ToString(F) \o " content " \o ToString(V))

Call(e) ==
    CASE e.op = "upd" ->
            LET r == Submit(conf, S, Abs(e.n), e.now) IN
            /\ S' = r.S /\ UNCHANGED <<sync, conn>>
            /\ Judge(l, (e.err = "ok") = (\A i \in DOMAIN r.classes : Accepted(r.classes[i])), "unexpected result " \o e.err)
      [] e.op = "rst" -> S' = NewTarget /\ sync' = FALSE /\ conn' = FALSE
      [] e.op = "sync" -> sync' = TRUE /\ UNCHANGED <<S, conn>>
      [] e.op = "conn" -> conn' = TRUE /\ UNCHANGED <<S, sync>>
      [] OTHER -> UNCHANGED <<S, sync, conn>>

Next ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset" THEN
           /\ t' = e.targets[1] /\ S' = NewTarget /\ sync' = FALSE /\ conn' = FALSE
           /\ conf' = [ed |-> e.ed, thr |-> e.thr]
       ELSE IF e.e = "call" THEN UNCHANGED <<t, conf>> /\ Call(e)
       ELSE /\ UNCHANGED <<t, S, conf, sync, conn>>
            /\ IF e.e = "final" THEN Final(e) ELSE Judge(l, FALSE, e.e)

Spec == Init /\ [][Next]_vars
Consumed == Finished(TLCGet("stats").diameter - 1)
=============================================================================
