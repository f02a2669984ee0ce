------------------------------ MODULE Pipeline ------------------------------
(* The collector: a target streams notifications over a session, the cache  *)
(* accepts them and feeds changes to the queues of its subscribers, which   *)
(* build a view.  Once everything has come to rest every view is what the   *)
(* target has streamed in its session.                                      *)
(*                                                                          *)
(* A leaf of the cache is an object with an identity: the queues hold the   *)
(* object, its value is read when it is sent.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS L, V, Streams, Polls, MaxMsg, MaxDrop, Broken

VARIABLES tgt,      \* what the target has streamed in this session
          link,     \* "up", "lost" (the collector has yet to notice), "down"
          wire,     \* notifications under way
          clock, sent, drops,
          cache,    \* leaf -> object, 0: none
          heap,     \* objects
          reg,      \* stream client -> "no", "walk", "yes"
          todo,     \* leaves its walk has yet to visit
          queue, view,
          fresh     \* poll client -> nothing changed since it polled
vars == <<tgt, link, wire, clock, sent, drops, cache, heap, reg, todo, queue, view, fresh>>
Clients == Streams \cup Polls
Nothing == [l \in L |-> 0]

Init == /\ tgt = Nothing /\ link = "up" /\ wire = <<>> /\ clock = 1 /\ sent = 0 /\ drops = 0
        /\ cache = Nothing /\ heap = <<>>
        /\ reg = [c \in Streams |-> "no"] /\ todo = [c \in Streams |-> {}]
        /\ queue = [c \in Streams |-> <<>>] /\ view = [c \in Clients |-> Nothing]
        /\ fresh = [c \in Polls |-> FALSE]

----------------------------------------------------------------------------
(* the target: a notification deletes, then updates *)
Msgs == {[del |-> D, l |-> l, v |-> v] : D \in SUBSET L, l \in L, v \in V} \cup {[del |-> D, l |-> 0, v |-> 0] : D \in SUBSET L \ {{}}}
Stream == /\ link = "up" /\ sent < MaxMsg
          /\ \E m \in Msgs :
             /\ tgt' = [l \in L |-> IF l = m.l THEN m.v ELSE IF l \in m.del THEN 0 ELSE tgt[l]]
             /\ wire' = Append(wire, [del |-> m.del, l |-> m.l, v |-> m.v, ts |-> clock])
          /\ clock' = clock + 1 /\ sent' = sent + 1
          /\ UNCHANGED <<link, drops, cache, heap, reg, todo, queue, view, fresh>>

(* the session ends: some of what is under way still arrives *)
Drop == /\ link = "up" /\ drops < MaxDrop
        /\ \E k \in 0..Len(wire) : wire' = SubSeq(wire, 1, k)
        /\ link' = "lost" /\ drops' = drops + 1 /\ tgt' = Nothing
        /\ UNCHANGED <<clock, sent, cache, heap, reg, todo, queue, view, fresh>>
(* the device restarted, its clock may have been set back *)
Reconnect == /\ link = "down" /\ link' = "up"
             /\ clock' \in {1, clock}
             /\ UNCHANGED <<tgt, wire, sent, drops, cache, heap, reg, todo, queue, view, fresh>>

----------------------------------------------------------------------------
(* the feed *)
Same(a, b) == IF Broken = "copy" THEN a.l = b.l /\ a.op = b.op ELSE a.op = "u" /\ a = b
Put(q, e) == IF \E i \in DOMAIN q : Same(q[i], e) THEN q ELSE Append(q, e)
PutAll(q, es) == IF Len(es) = 0 THEN q ELSE IF Len(es) = 1 THEN Put(q, es[1])
                 ELSE IF Len(es) = 2 THEN Put(Put(q, es[1]), es[2]) ELSE Put(Put(Put(q, es[1]), es[2]), es[3])
Upd(l, id, hp) == [op |-> "u", l |-> l, id |-> id, v |-> IF Broken = "copy" THEN hp[id].v ELSE 0]
Del(l) == [op |-> "d", l |-> l, id |-> 0, v |-> 0]
Feed(es) == queue' = [c \in Streams |-> IF reg[c] = "no" \/ (Broken = "walkfirst" /\ reg[c] = "walk") THEN queue[c] ELSE PutAll(queue[c], es)]
Stale == fresh' = [c \in Polls |-> FALSE]

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SetSeq(S \ {m})

(* the collector takes a notification: its update, then its deletes *)
Apply ==
    /\ link \in {"up", "lost"} /\ wire # <<>>
    /\ LET m == Head(wire)
           id == IF m.l = 0 THEN 0 ELSE cache[m.l]
           new == m.l # 0 /\ id = 0
           ok == m.l # 0 /\ (id = 0 \/ heap[id].ts < m.ts)
           quiet == ok /\ ~new /\ heap[id].v = m.v
           obj == [l |-> m.l, v |-> m.v, ts |-> m.ts]
           hp == IF ~ok THEN heap ELSE IF new THEN Append(heap, obj) ELSE [heap EXCEPT ![id] = obj]
           oid == IF new THEN Len(hp) ELSE id
           ca == IF new THEN [cache EXCEPT ![m.l] = oid] ELSE cache
           gone == {l \in m.del : ca[l] # 0 /\ (hp[ca[l]].ts < m.ts \/ Broken = "deleteall")}
           ups == IF ok /\ ~quiet THEN <<Upd(m.l, oid, hp)>> ELSE <<>>
           dels == IF Broken = "nodelfeed" THEN <<>> ELSE [i \in 1..Cardinality(gone) |-> Del(SetSeq(gone)[i])]
       IN IF Broken = "unregistered" THEN UNCHANGED <<heap, cache, queue>>
          ELSE /\ heap' = hp
               /\ cache' = [l \in L |-> IF l \in gone THEN 0 ELSE ca[l]]
               /\ Feed(ups \o dels)
    /\ wire' = Tail(wire) /\ Stale
    /\ UNCHANGED <<tgt, link, clock, sent, drops, reg, todo, view>>

(* it notices that the session has ended *)
Reset == /\ link = "lost" /\ wire = <<>>
         /\ link' = "down"
         /\ IF Broken = "noreset" THEN UNCHANGED <<cache, queue>>
            ELSE LET S == {l \in L : cache[l] # 0} IN
                 cache' = Nothing /\ Feed([i \in 1..Cardinality(S) |-> Del(SetSeq(S)[i])])
         /\ Stale
         /\ UNCHANGED <<tgt, wire, clock, sent, drops, heap, reg, todo, view>>

----------------------------------------------------------------------------
(* a subscriber registers, then walks the cache *)
Register(c) == /\ reg[c] = "no"
               /\ reg' = [reg EXCEPT ![c] = "walk"] /\ todo' = [todo EXCEPT ![c] = L]
               /\ UNCHANGED <<tgt, link, wire, clock, sent, drops, cache, heap, queue, view, fresh>>
Visit(c) == /\ reg[c] = "walk" /\ todo[c] # {}
            /\ LET l == CHOOSE x \in todo[c] : \A y \in todo[c] : x <= y IN
               /\ todo' = [todo EXCEPT ![c] = @ \ {l}]
               /\ queue' = IF cache[l] = 0 THEN queue ELSE [queue EXCEPT ![c] = Put(@, Upd(l, cache[l], heap))]
            /\ UNCHANGED <<tgt, link, wire, clock, sent, drops, cache, heap, reg, view, fresh>>
Walked(c) == /\ reg[c] = "walk" /\ todo[c] = {}
             /\ reg' = [reg EXCEPT ![c] = "yes"]
             /\ UNCHANGED <<tgt, link, wire, clock, sent, drops, cache, heap, todo, queue, view, fresh>>
Send(c) == /\ queue[c] # <<>>
           /\ LET e == Head(queue[c]) IN
              view' = [view EXCEPT ![c][e.l] = IF e.op = "d" THEN 0 ELSE IF Broken = "copy" THEN e.v ELSE heap[e.id].v]
           /\ queue' = [queue EXCEPT ![c] = Tail(@)]
           /\ UNCHANGED <<tgt, link, wire, clock, sent, drops, cache, heap, reg, todo, fresh>>
(* a poll gets what is there, and what it got before is void *)
Poll(c) == /\ ~fresh[c]
           /\ view' = [view EXCEPT ![c] = [l \in L |-> IF cache[l] # 0 THEN heap[cache[l]].v
                                                       ELSE IF Broken = "pollkeep" THEN @[l] ELSE 0]]
           /\ fresh' = [fresh EXCEPT ![c] = TRUE]
           /\ UNCHANGED <<tgt, link, wire, clock, sent, drops, cache, heap, reg, todo, queue>>

Progress == Apply \/ Reset \/ Reconnect \/ \E c \in Streams : Visit(c) \/ Walked(c) \/ Send(c)
Next == Stream \/ Drop \/ Progress \/ (\E c \in Streams : Register(c)) \/ \E c \in Polls : Poll(c)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Apply) /\ WF_vars(Reset) /\ WF_vars(Reconnect)
            /\ \A c \in Streams : WF_vars(Visit(c)) /\ WF_vars(Walked(c)) /\ WF_vars(Send(c))

----------------------------------------------------------------------------
Rest == link = "up" /\ wire = <<>>
Faithful == Rest => /\ \A c \in Streams : reg[c] = "yes" /\ queue[c] = <<>> => view[c] = tgt
                    /\ \A c \in Polls : fresh[c] => view[c] = tgt
(* it does come to rest *)
Settles == <>[](Rest /\ \A c \in Streams : queue[c] = <<>> /\ reg[c] # "walk")
=============================================================================
