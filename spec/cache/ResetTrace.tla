----------------------------- MODULE ResetTrace -----------------------------
(* C14: reset and removal clear exactly one target and announce it.         *)
EXTENDS CacheObs
VARIABLES l, prev
vars == <<l, prev>>

Init == l = 1 /\ prev = EmptyMap

Counters == {"upd", "sup", "stale", "fut", "empty", "add", "del", "leaf"}
DeleteKeys(feed) == UNION {{NotiIndex(feed[i].pre, feed[i].del[j]) : j \in DOMAIN feed[i].del} : i \in DOMAIN feed}
Announced(feed, t, P) == \A p \in P : \E q \in DeleteKeys(feed) : Selects(q, <<t>> \o p)

ExportedText == {"targetLeavesAdded", "targetLeavesDeleted", "targetLeavesEmpty", "targetLeaves", "targetLeavesUpdated",
                 "targetLeavesStale", "targetLeavesFuture", "targetLeavesSuppressed"}
MetaInitial(m) ==
    /\ \A p \in DOMAIN m : (Len(p) = 2 /\ p[1] = MetaRoot /\ p[2] \in {"sync", "connected"}) => m[p].v = "b:false"
    /\ \A p \in DOMAIN m : (Len(p) = 2 /\ p[1] = MetaRoot /\ p[2] \in ExportedText) => m[p].v = "i:0"

Reset(e) ==
    \E t \in {e.t} : \E m \in {ObsMap(e.obs[t])} :
    IF ~prev[t].ok THEN
        /\ Judge(l, ~e.obs[t].ok /\ ~e.obs[t].has, "a reset makes a target known")
        /\ Judge(l, Len(e.feed) = 0, "a reset of an unknown target is announced")
    ELSE
        /\ Judge(l, e.obs[t].ok /\ e.obs[t].has, "a reset removes the target")
        /\ Judge(l, Data(m) = {}, "leaves survive the reset")
        /\ Judge(l, Announced(e.feed, t, Data(prev[t].m)), "a cleared leaf is not announced")
        /\ Judge(l, \A k \in Counters : e.cnt[t][k] = 0, "a counter is not zero after the reset")
        /\ Judge(l, ~e.cnt[t].sync /\ ~e.cnt[t].conn, "synced or connected after the reset")
        /\ Judge(l, MetaInitial(m), "exported metadata not initial after the reset")
        /\ Judge(l, "latest0" \in DOMAIN e => e.latest0, "the latest timestamp not initial after the reset")

(* a removal announces the whole target *)
Remove(e) ==
    \E t \in {e.t} :
    /\ Judge(l, ~e.obs[t].ok, "queries of a removed target succeed")
    /\ Judge(l, ~e.obs[t].has, "a removed target is known")
    /\ Judge(l, Len(e.obs[t].m) = 0, "leaves of a removed target")
    /\ Judge(l, prev[t].ok => \E q \in DeleteKeys(e.feed) : StripStar(q) = <<t>>, "the removal is not announced")

Isolated(e) ==
    /\ \A x \in DOMAIN e.obs \ {e.t} :
         /\ Judge(l, e.obs[x].ok = prev[x].ok /\ e.obs[x].has = prev[x].ok, "another target appears or vanishes")
         /\ Judge(l, ObsMap(e.obs[x]) = prev[x].m, "the content of another target changes")
         /\ Judge(l, e.cnt[x] = prev[x].cnt, "the metadata of another target changes")
    /\ Judge(l, \A i \in DOMAIN e.feed : e.feed[i].pre.t = e.t, "a change of another target is announced")

(* the export of a target that has had no updates since it was reset *)
Export(e) ==
    /\ Judge(l, \A x \in DOMAIN e.obs : e.obs[x].ok = prev[x].ok, "a target appears or vanishes")
    /\ Judge(l, \A t \in DOMAIN e.latest0 : (prev[t].ok /\ prev[t].new) => e.latest0[t],
          "the latest timestamp exported after the reset is not initial")

Step(e) ==
    /\ e.op \notin {"meta", "size"} => Isolated(e)
    /\ CASE e.op = "rst" -> Reset(e)
         [] e.op = "rm" -> Remove(e)
         [] e.op = "add" -> /\ Judge(l, e.obs[e.t].ok /\ e.obs[e.t].has, "an added target is unknown")
                            /\ Judge(l, Data(ObsMap(e.obs[e.t])) = {}, "an added target has leaves")
         [] e.op = "meta" /\ "latest0" \in DOMAIN e -> Export(e)
         [] e.op = "upd" /\ ~prev[e.t].ok ->
                            /\ Judge(l, e.err # "ok", "an update of an unknown target is accepted")
                            /\ Judge(l, ~e.obs[e.t].ok /\ ~e.obs[e.t].has /\ Len(e.feed) = 0, "an update makes a target known")
         [] OTHER -> Judge(l, \A x \in DOMAIN e.obs : e.obs[x].ok = prev[x].ok, "a target appears or vanishes")

Next ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       IF e.e = "reset" THEN
           prev' = [t \in ToSet(e.targets) |-> [ok |-> TRUE, new |-> TRUE, m |-> EmptyMap, cnt |-> [upd |-> 0, sup |-> 0, stale |-> 0, fut |-> 0,
                        empty |-> 0, add |-> 0, del |-> 0, leaf |-> 0, sync |-> FALSE, conn |-> FALSE]]]
       ELSE IF e.e = "op" THEN
           /\ Step(e)
           /\ prev' = TLCEval([t \in DOMAIN e.obs |-> [ok |-> e.obs[t].ok, new |-> IF e.t # t \/ e.op # "upd" THEN prev[t].new \/ (e.op \in {"rst", "add"} /\ e.t = t) ELSE FALSE,
                                                       m |-> ObsMap(e.obs[t]), cnt |-> e.cnt[t]]])
       ELSE UNCHANGED prev /\ Judge(l, e.e = "end", e.e)

Spec == Init /\ [][Next]_vars
Consumed == Finished(TLCGet("stats").diameter - 1)
=============================================================================
