------------------------------ MODULE Subscribe ------------------------------
(* The Subscribe server on top of the cache, at the grain of its shared     *)
(* accesses: a writer changes the tree and then announces the change; a     *)
(* subscription registers for announcements, walks the tree, queues a sync  *)
(* marker, and a sender forwards what is queued, reading each leaf at the   *)
(* moment it is dequeued.                                                   *)
(*                                                                          *)
(* A leaf handle is a number; handle h stands for the object hv[h]: either  *)
(* the leaf of a path (its value may change while it is in the tree) or a   *)
(* delete announcement.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Paths,        \* leaves of the model
          Start,        \* paths present initially
          MaxOps,       \* writer operations
          Subs,         \* subscriptions
          Mode,         \* "stream", "updates", "once" or "poll"
          Polls,        \* poll triggers
          Allowed,      \* paths whose target the caller is authorised for
          StallOK,      \* TRUE: a send may block forever, and time out
          (* design decisions; the code's are all TRUE *)
          RegFirst,     \* register before walking
          WriteFirst,   \* change the tree before announcing
          AtomicVisit,  \* no delete between finding a leaf and queueing it
          Live,         \* the value is read when dequeued
          Coalesce,     \* a pending leaf is not queued twice
          FilterAll,    \* the ACL is applied to every message, not only the walk
          Drain,        \* a closed queue is drained before the stream ends
          Unbounded     \* the queue never blocks the writer

VARIABLES leaf,     \* path -> handle, 0 if absent
          hv,       \* handle -> [p, k, v]
          ver, nops,
          pend,     \* what the writer still has to do for its operation
          sub       \* subscription -> its state
vars == <<leaf, hv, ver, nops, pend, sub>>

None == 0
Marker == 0
NoPend == [st |-> "idle"]

InitHandles == CHOOSE s \in [1..Cardinality(Start) -> Start] : {s[i] : i \in DOMAIN s} = Start

NewSub == [pc |-> "new", reg |-> FALSE, todo |-> {}, held |-> None, q |-> <<>>,
           snd |-> <<>>,         \* message being sent
           view |-> [p \in Paths |-> 0], syncs |-> 0, ended |-> "no",
           must |-> {},          \* present at the start and not deleted since
           sent |-> {},          \* paths delivered in this round
           ever |-> {},          \* values the leaves held since the start of the round
           ins |-> 0, out |-> 0, \* insertions accepted, messages with their duplicates
           polls |-> 0, early |-> FALSE, badv |-> FALSE, leak |-> FALSE, missing |-> FALSE]

Init ==
    /\ leaf = [p \in Paths |-> IF p \in Start THEN CHOOSE i \in DOMAIN InitHandles : InitHandles[i] = p ELSE 0]
    /\ hv = [i \in DOMAIN InitHandles |-> [p |-> InitHandles[i], k |-> "set", v |-> i]]
    /\ ver = Cardinality(Start) /\ nops = 0 /\ pend = NoPend
    /\ sub = [s \in Subs |-> NewSub]

Open(s) == sub[s].ended = "no"
Queued(q, h) == \E i \in DOMAIN q : q[i].h = h
Insert(S, h) ==
    IF Coalesce /\ h # Marker /\ Queued(S.q, h)
    THEN [S EXCEPT !.q = [i \in DOMAIN @ |-> IF @[i].h = h THEN [@[i] EXCEPT !.d = @ + 1] ELSE @[i]], !.ins = @ + 1]
    ELSE [S EXCEPT !.q = Append(@, [h |-> h, d |-> 0, v |-> IF h = Marker THEN 0 ELSE hv[h].v]),
                   !.ins = @ + (IF h = Marker THEN 0 ELSE 1)]

----------------------------------------------------------------------------
(* the writer: one target's stream of updates and deletes *)
Announce(h) == sub' = [s \in Subs |-> IF sub[s].reg /\ Open(s) THEN Insert(sub[s], h) ELSE sub[s]]

(* bookkeeping of the observer: what a delete or a set means for the rounds *)
Noted(S, p, gone, v) ==
    [S EXCEPT !.must = IF gone THEN @ \ {p} ELSE @, !.ever = IF gone THEN @ ELSE @ \cup {<<p, v>>}]

Begin(p, del) ==
    /\ pend.st = "idle" /\ nops < MaxOps /\ nops' = nops + 1
    /\ (del => leaf[p] # 0)
    /\ ver' = ver + 1
    /\ IF del
       THEN /\ hv' = Append(hv, [p |-> p, k |-> "del", v |-> 0])
            /\ leaf' = IF WriteFirst THEN [leaf EXCEPT ![p] = 0] ELSE leaf
            /\ pend' = [st |-> "tell", h |-> Len(hv'), p |-> p, del |-> TRUE, old |-> leaf[p]]
       ELSE /\ hv' = IF leaf[p] = 0 THEN Append(hv, [p |-> p, k |-> "set", v |-> ver'])
                     ELSE IF WriteFirst THEN [hv EXCEPT ![leaf[p]].v = ver'] ELSE hv
            /\ leaf' = IF leaf[p] = 0 /\ WriteFirst THEN [leaf EXCEPT ![p] = Len(hv')] ELSE leaf
            /\ pend' = [st |-> "tell", h |-> IF leaf[p] = 0 THEN Len(hv') ELSE leaf[p], p |-> p, del |-> FALSE, old |-> ver']
    /\ sub' = [s \in Subs |-> Noted(sub[s], p, del, ver')]

CanTell == Unbounded \/ \A s \in Subs : ~(sub[s].reg /\ Open(s)) \/ Len(sub[s].q) < 2
Tell ==
    /\ pend.st = "tell" /\ CanTell
    /\ Announce(pend.h)
    /\ IF WriteFirst THEN pend' = NoPend /\ UNCHANGED <<leaf, hv>>
       ELSE pend' = [pend EXCEPT !.st = "write"] /\ UNCHANGED <<leaf, hv>>
    /\ UNCHANGED <<ver, nops>>
LateWrite ==
    /\ pend.st = "write"
    /\ leaf' = IF pend.del THEN [leaf EXCEPT ![pend.p] = 0] ELSE [leaf EXCEPT ![pend.p] = pend.h]
    /\ hv' = IF pend.del THEN hv ELSE [hv EXCEPT ![pend.h].v = pend.old]
    /\ pend' = NoPend
    /\ UNCHANGED <<ver, nops, sub>>
Writer == (\E p \in Paths, d \in BOOLEAN : Begin(p, d)) \/ Tell \/ LateWrite

----------------------------------------------------------------------------
(* a subscription *)
Present == {p \in Paths : leaf[p] # 0}
(* a leaf of an operation in progress may be seen or not *)
Sure == Present \ (IF pend.st = "idle" THEN {} ELSE {pend.p})
Round(S) == [S EXCEPT !.must = Sure, !.sent = {},
                      !.ever = {<<p, hv[leaf[p]].v>> : p \in Present} \cup
                               (IF pend.st # "idle" /\ ~pend.del THEN {<<pend.p, pend.old>>} ELSE {})]

Streaming == Mode \in {"stream", "updates"}
Open1(s) ==
    /\ sub[s].pc = "new"
    /\ sub' = [sub EXCEPT ![s] =
          LET S == Round(@) IN
          IF Mode = "updates" THEN [Insert(S, Marker) EXCEPT !.pc = "reg"]
          ELSE IF Mode = "stream" /\ RegFirst THEN [S EXCEPT !.pc = "reg"]
          ELSE [S EXCEPT !.pc = "walk", !.todo = Paths]]
    /\ UNCHANGED <<leaf, hv, ver, nops, pend>>
Register(s) ==
    /\ sub[s].pc = "reg"
    /\ sub' = [sub EXCEPT ![s] = IF Mode = "updates" \/ ~RegFirst THEN [@ EXCEPT !.reg = TRUE, !.pc = "live"]
                                 ELSE [@ EXCEPT !.reg = TRUE, !.pc = "walk", !.todo = Paths]]
    /\ UNCHANGED <<leaf, hv, ver, nops, pend>>
Visit(s) ==
    /\ sub[s].pc = "walk" /\ Open(s) /\ sub[s].held = None
    /\ \E p \in sub[s].todo :
         sub' = [sub EXCEPT ![s] =
            LET S == [@ EXCEPT !.todo = @ \ {p}] IN
            IF leaf[p] = 0 THEN S
            ELSE IF AtomicVisit THEN Insert(S, leaf[p]) ELSE [S EXCEPT !.held = leaf[p]]]
    /\ UNCHANGED <<leaf, hv, ver, nops, pend>>
LateInsert(s) ==
    /\ sub[s].held # None
    /\ sub' = [sub EXCEPT ![s] = [Insert(@, sub[s].held) EXCEPT !.held = None]]
    /\ UNCHANGED <<leaf, hv, ver, nops, pend>>
Mark(s) ==
    /\ sub[s].pc = "walk" /\ sub[s].todo = {} /\ sub[s].held = None /\ Open(s)
    /\ sub' = [sub EXCEPT ![s] = [Insert(@, Marker) EXCEPT
          !.pc = CASE Mode = "once" -> "closed" [] Mode = "poll" -> "wait" [] OTHER -> IF RegFirst THEN "live" ELSE "reg"]]
    /\ UNCHANGED <<leaf, hv, ver, nops, pend>>
Trigger(s) ==
    /\ sub[s].pc = "wait" /\ Open(s) /\ sub[s].polls < Polls /\ sub[s].syncs = sub[s].polls + 1
    /\ sub' = [sub EXCEPT ![s] = [Round(@) EXCEPT !.pc = "walk", !.todo = Paths, !.polls = @ + 1]]
    /\ UNCHANGED <<leaf, hv, ver, nops, pend>>

(* the sender *)
Deq(s) ==
    /\ Open(s) /\ sub[s].snd = <<>> /\ Len(sub[s].q) > 0
    /\ LET it == Head(sub[s].q)
           m == IF it.h = Marker THEN [k |-> "sync", p |-> "", v |-> 0, d |-> 0]
                ELSE [k |-> hv[it.h].k, p |-> hv[it.h].p, v |-> IF Live THEN hv[it.h].v ELSE it.v, d |-> it.d]
           drop == m.k # "sync" /\ m.p \notin Allowed /\ (FilterAll \/ sub[s].syncs = 0)
       IN sub' = [sub EXCEPT ![s] = [@ EXCEPT !.q = Tail(@), !.snd = IF drop THEN <<>> ELSE <<m>>,
                                              !.out = @ + (IF m.k = "sync" THEN 0 ELSE 1 + m.d)]]
    /\ UNCHANGED <<leaf, hv, ver, nops, pend>>
Send(s) ==
    /\ Open(s) /\ sub[s].snd # <<>>
    /\ LET m == sub[s].snd[1] IN
       sub' = [sub EXCEPT ![s] =
          LET S == [@ EXCEPT !.snd = <<>>] IN
          CASE m.k = "sync" -> [S EXCEPT !.syncs = @ + 1,
                                         !.missing = @ \/ (Mode # "updates" /\ ~((S.must \cap Allowed) \subseteq S.sent)),
                                         !.early = @ \/ (Mode = "updates" /\ S.sent # {})]
            [] m.k = "set"  -> [S EXCEPT !.view[m.p] = m.v, !.sent = @ \cup {m.p},
                                         !.badv = @ \/ <<m.p, m.v>> \notin S.ever,
                                         !.leak = @ \/ m.p \notin Allowed]
            [] OTHER        -> [S EXCEPT !.view[m.p] = 0, !.sent = @ \cup {m.p},
                                         !.leak = @ \/ m.p \notin Allowed]]
    /\ UNCHANGED <<leaf, hv, ver, nops, pend>>
Finish(s) ==
    /\ Open(s) /\ sub[s].pc = "closed" /\ (sub[s].q = <<>> \/ ~Drain) /\ sub[s].snd = <<>>
    /\ sub' = [sub EXCEPT ![s].ended = "ok"]
    /\ UNCHANGED <<leaf, hv, ver, nops, pend>>
TimeOut(s) ==
    /\ StallOK /\ Open(s) /\ sub[s].snd # <<>>
    /\ sub' = [sub EXCEPT ![s].ended = "timeout", ![s].reg = FALSE]
    /\ UNCHANGED <<leaf, hv, ver, nops, pend>>

Client(s) == Open1(s) \/ Register(s) \/ Visit(s) \/ LateInsert(s) \/ Mark(s) \/ Trigger(s) \/ Deq(s) \/ Send(s) \/ Finish(s) \/ TimeOut(s)
Next == Writer \/ \E s \in Subs : Client(s)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Tell) /\ WF_vars(\E p \in Paths, d \in BOOLEAN : Begin(p, d))

----------------------------------------------------------------------------
Synced(s) == sub[s].syncs > 0
Quiet(s) == /\ pend.st = "idle" /\ sub[s].q = <<>> /\ sub[s].snd = <<>> /\ sub[s].held = None
            /\ sub[s].pc \in {"live", "wait", "closed"} /\ sub[s].ended \in {"no", "ok"}
Content == [p \in Paths |-> IF leaf[p] = 0 \/ p \notin Allowed THEN 0 ELSE hv[leaf[p]].v]

Converges == Mode = "stream" => \A s \in Subs : Quiet(s) => sub[s].view = Content
ConvergesUpdates == Mode = "updates" => \A s \in Subs : Quiet(s) =>
    \A p \in Paths : sub[s].view[p] # 0 => sub[s].view[p] = Content[p]
OneSync == \A s \in Subs : sub[s].syncs <= 1 + sub[s].polls
SyncIsSent == \A s \in Subs : Quiet(s) => sub[s].syncs = 1 + sub[s].polls
SnapshotFirst == \A s \in Subs : ~sub[s].missing
UpdatesOnlySyncFirst == \A s \in Subs : ~sub[s].early
HeldValues == \A s \in Subs : ~sub[s].badv
NoLeak == \A s \in Subs : ~sub[s].leak
OnceEnds == \A s \in Subs : (Mode = "once" /\ sub[s].ended = "ok") => sub[s].syncs = 1
(* backlog: one entry per distinct pending leaf and one per delete *)
Backlog == \A s \in Subs : \A i, j \in DOMAIN sub[s].q : (i # j /\ sub[s].q[i].h = sub[s].q[j].h) => sub[s].q[i].h = Marker
(* no update is lost between insertion and message *)
Sum(q) == LET F[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE F[i-1] + (IF q[i].h = Marker THEN 0 ELSE 1 + q[i].d) IN F[Len(q)]
DupExact == \A s \in Subs : sub[s].ins = sub[s].out + Sum(sub[s].q)
(* the writer never waits for a subscriber *)
NeverWaits == pend.st = "tell" => CanTell
WriterDone == <>(nops = MaxOps /\ pend.st = "idle")
=============================================================================
