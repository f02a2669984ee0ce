---------------------------- MODULE PathTreeLocks ---------------------------
(* The locking protocol of ctree: every node has a reader/writer lock;      *)
(* lookups and adds descend hand over hand keeping all ancestors read       *)
(* locked; an add that finds a child missing exchanges its read lock for a  *)
(* write lock and looks again; a delete write-locks the root, then each     *)
(* node it visits; a leaf handle locks only its node.  Checked: no          *)
(* deadlock, lock discipline, every call's result is what the abstract map  *)
(* gives at the call's linearization point, and the tree represents the map *)
(* whenever no structural change is in progress.                            *)
EXTENDS PathTree, TLC

CONSTANTS Threads,         \* 1..n
          Calls,           \* the calls a thread may make
          Recheck,         \* TRUE: look again after the lock exchange
          KeepLocks,       \* TRUE: ancestors stay locked while descending
          DelLocks         \* TRUE: deletes lock the nodes below the root

\* alternatives for Calls (the value written is the thread's)
C(o, p) == [op |-> o, p |-> p]
Adds == {C("add", p) : p \in {<<2>>, <<2, 2>>, <<2, 3>>, <<3>>, <<3, 2>>, <<3, 3>>, <<3, 3, 2>>}}
Dels == {C("del", p) : p \in {<<>>, <<2>>, <<3>>, <<3, 2>>, <<STAR, 2>>}}
Rest == {C("get", <<2, 3>>), C("get", <<3, 2>>), C("upd", <<3, 2>>)}
AllCalls == Adds \cup Dels \cup Rest
SmallCalls == {C("add", p) : p \in {<<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>}}
              \cup {C("del", p) : p \in {<<3>>, <<STAR, 2>>}} \cup {C("upd", <<3, 2>>)}

VARIABLES prog,    \* thread -> the call it makes
          node,    \* node id -> [k: "nil"|"branch"|"leaf", kids: name -> id, v]
          rd, wr,  \* locks: set of <<thread, node>>
          wait,    \* pending writers: set of <<thread, node>> (writer preference)
          pc, at, i, res, locks, map, handle, bad

vars == <<prog, node, rd, wr, wait, pc, at, i, res, locks, map, handle, bad>>

Root == 1
Call(t) == [op |-> prog[t].op, p |-> prog[t].p, v |-> t]

CanR(t, n) == /\ ~ \E u \in Threads : <<u, n>> \in wr \/ <<u, n>> \in wait
CanW(t, n) == /\ ~ \E u \in Threads : <<u, n>> \in wr \/ <<u, n>> \in rd

Kid(n, x) == IF node[n].k = "branch" /\ x \in DOMAIN node[n].kids THEN node[n].kids[x] ELSE 0

Init ==
    /\ prog \in [Threads -> Calls]
    \* one leaf 3/2 with value 9
    /\ node = <<[k |-> "branch", kids |-> (3 :> 2), v |-> 0],
                [k |-> "branch", kids |-> (2 :> 3), v |-> 0],
                [k |-> "leaf", kids |-> <<>>, v |-> 9]>>
    /\ rd = {} /\ wr = {} /\ wait = {}
    /\ pc = [t \in Threads |-> "start"]
    /\ at = [t \in Threads |-> Root]
    /\ i = [t \in Threads |-> 0]
    /\ res = [t \in Threads |-> "none"]
    /\ locks = [t \in Threads |-> {}]
    /\ map = (<<3, 2>> :> 9)
    /\ handle = [t \in Threads |-> 0]
    /\ bad = FALSE

Mine(S, t) == {x \in S : x[1] = t}

Unlock(t) == /\ rd' = rd \ Mine(rd, t) /\ wr' = wr \ Mine(wr, t)

Finish(t, r) == /\ pc' = [pc EXCEPT ![t] = "done"] /\ res' = [res EXCEPT ![t] = r]

\* ---- descending with read locks (Add intermediate, Get) ----
WantR(t) ==
    /\ pc[t] = "start"
    /\ Call(t).op \in {"add", "get", "upd"}
    /\ handle[t] = 0
    /\ IF i[t] = Len(Call(t).p) /\ Call(t).op = "add"
       THEN pc' = [pc EXCEPT ![t] = "termwait"] /\ wait' = wait \cup {<<t, at[t]>>} /\ UNCHANGED rd
       ELSE CanR(t, at[t]) /\ rd' = rd \cup {<<t, at[t]>>} /\ pc' = [pc EXCEPT ![t] = "look"] /\ UNCHANGED wait
    /\ UNCHANGED <<node, wr, at, i, res, locks, map, handle, bad>>

Descend(t, k) ==
    /\ at' = [at EXCEPT ![t] = k]
    /\ i' = [i EXCEPT ![t] = @ + 1]
    /\ pc' = [pc EXCEPT ![t] = "start"]

\* linearization points compare with the abstract map
LookAdd(t) ==
    LET c == Call(t)
        x == c.p[i[t] + 1]
        n == at[t] IN
    /\ pc[t] = "look" /\ c.op = "add"
    /\ IF node[n].k = "leaf"
       THEN /\ Finish(t, "fail") /\ Unlock(t)
            /\ bad' = (bad \/ CanAdd(map, c.p))
            /\ UNCHANGED <<at, i, wait>>
       ELSE IF Kid(n, x) # 0
       THEN /\ Descend(t, Kid(n, x))
            /\ rd' = IF KeepLocks THEN rd ELSE rd \ {<<t, n>>}
            /\ UNCHANGED <<res, wr, wait, bad>>
       ELSE \* exchange the read lock for a write lock
            /\ rd' = rd \ {<<t, n>>}
            /\ pc' = [pc EXCEPT ![t] = "xchg"]
            /\ UNCHANGED <<at, i, res, wr, wait, bad>>
    /\ UNCHANGED <<node, locks, map, handle>>

WantX(t) ==
    /\ pc[t] = "xchg"
    /\ wait' = wait \cup {<<t, at[t]>>}
    /\ pc' = [pc EXCEPT ![t] = "xwait"]
    /\ UNCHANGED <<node, rd, wr, at, i, res, locks, map, handle, bad>>

GotX(t) ==
    /\ pc[t] = "xwait" /\ CanW(t, at[t])
    /\ wr' = wr \cup {<<t, at[t]>>}
    /\ wait' = wait \ {<<t, at[t]>>}
    /\ pc' = [pc EXCEPT ![t] = "slow"]
    /\ UNCHANGED <<node, rd, at, i, res, locks, map, handle, bad>>

\* new chain for the rest of the path below n, as fresh nodes
Chain(n, x, rest, v) ==
    LET N == Len(node)
        d == Len(rest)
        fresh == [j \in 1..d+1 |->
                    IF j = d + 1 THEN [k |-> "leaf", kids |-> <<>>, v |-> v]
                    ELSE [k |-> "branch", kids |-> (rest[j] :> N + j + 1), v |-> 0]]
        old == IF node[n].k = "branch" THEN node[n].kids ELSE <<>>
        kids == [y \in DOMAIN old \cup {x} |-> IF y = x THEN N + 1 ELSE old[y]]
    IN [node EXCEPT ![n] = [k |-> "branch", kids |-> kids, v |-> 0]] \o fresh

Slow(t) ==
    LET c == Call(t)
        n == at[t]
        x == c.p[i[t] + 1]
        rest == SubSeq(c.p, i[t] + 2, Len(c.p)) IN
    /\ pc[t] = "slow"
    /\ IF node[n].k = "leaf"
       THEN /\ Finish(t, "fail") /\ Unlock(t)
            /\ bad' = (bad \/ CanAdd(map, c.p))
            /\ UNCHANGED <<node, at, i>>
       ELSE /\ IF Kid(n, x) = 0 \/ ~Recheck
               THEN node' = Chain(n, x, rest, c.v) /\ Descend(t, Len(node) + 1)
               ELSE node' = node /\ Descend(t, Kid(n, x))
            /\ UNCHANGED <<rd, wr, res, bad>>
    /\ UNCHANGED <<wait, locks, map, handle>>

Term(t) ==
    LET c == Call(t)
        n == at[t] IN
    /\ pc[t] = "termwait" /\ CanW(t, n)
    /\ wait' = wait \ {<<t, n>>}
    /\ IF node[n].k = "branch"
       THEN /\ Finish(t, "fail") /\ bad' = (bad \/ CanAdd(map, c.p)) /\ UNCHANGED <<node, map>>
       ELSE /\ Finish(t, "ok") /\ bad' = (bad \/ ~CanAdd(map, c.p))
            /\ node' = [node EXCEPT ![n].k = "leaf", ![n].v = c.v]
            /\ map' = Put(map, c.p, c.v)
    /\ Unlock(t)
    /\ UNCHANGED <<at, i, locks, handle>>

LookGet(t) ==
    LET c == Call(t)
        n == at[t] IN
    /\ pc[t] = "look" /\ c.op \in {"get", "upd"}
    /\ IF i[t] = Len(c.p)
       THEN /\ Unlock(t)
            /\ bad' = (bad \/ (node[n].k = "leaf") # IsLeafAt(map, c.p)
                           \/ (node[n].k = "leaf" /\ node[n].v # map[c.p]))
            /\ IF c.op = "upd" /\ node[n].k = "leaf"
               THEN handle' = [handle EXCEPT ![t] = n] /\ pc' = [pc EXCEPT ![t] = "hnd"] /\ UNCHANGED res
               ELSE Finish(t, "got") /\ UNCHANGED handle
            /\ UNCHANGED <<at, i>>
       ELSE IF Kid(n, c.p[i[t] + 1]) # 0
       THEN Descend(t, Kid(n, c.p[i[t] + 1])) /\ UNCHANGED <<rd, wr, res, bad, handle>>
       ELSE /\ Unlock(t) /\ Finish(t, "none")
            /\ bad' = (bad \/ IsLeafAt(map, c.p))
            /\ UNCHANGED <<at, i, handle>>
    /\ UNCHANGED <<node, wait, locks, map>>

\* ---- update through a handle: only the node is locked ----
HLock(t) == /\ pc[t] = "hnd" /\ CanW(t, handle[t])
            /\ wr' = wr \cup {<<t, handle[t]>>}
            /\ pc' = [pc EXCEPT ![t] = "hset"]
            /\ UNCHANGED <<node, rd, wait, at, i, res, locks, map, handle, bad>>

RECURSIVE PathsTo(_, _)
PathsTo(n, target) ==    \* paths below n that lead to target
    IF n = target THEN {<<>>}
    ELSE IF node[n].k # "branch" THEN {}
    ELSE UNION {{<<x>> \o p : p \in PathsTo(node[n].kids[x], target)} : x \in DOMAIN node[n].kids}

HSet(t) == /\ pc[t] = "hset"
           /\ node' = [node EXCEPT ![handle[t]].v = Call(t).v]
           /\ LET S == PathsTo(Root, handle[t]) IN
              map' = [p \in DOMAIN map |-> IF p \in S THEN Call(t).v ELSE map[p]]
           /\ Unlock(t) /\ Finish(t, "set")
           /\ UNCHANGED <<wait, at, i, locks, handle, bad>>

\* ---- delete: write lock on the root, then on what it visits ----
DelWant(t) == /\ pc[t] = "start" /\ Call(t).op = "del"
              /\ wait' = wait \cup {<<t, Root>>}
              /\ pc' = [pc EXCEPT ![t] = "dwait"]
              /\ UNCHANGED <<node, rd, wr, at, i, res, locks, map, handle, bad>>

DelGot(t) == /\ pc[t] = "dwait" /\ CanW(t, Root)
             /\ wr' = wr \cup {<<t, Root>>} /\ wait' = wait \ {<<t, Root>>}
             /\ pc' = [pc EXCEPT ![t] = "del"]
             /\ UNCHANGED <<node, rd, at, i, res, locks, map, handle, bad>>

RECURSIVE Leaves(_, _)
Leaves(nd, n) ==     \* path -> value represented below n
    IF nd[n].k = "leaf" THEN (<<>> :> nd[n].v)
    ELSE IF nd[n].k = "nil" \/ DOMAIN nd[n].kids = {} THEN <<>>
    ELSE LET sub == [x \in DOMAIN nd[n].kids |-> Leaves(nd, nd[n].kids[x])]
             ps == UNION {{<<x>> \o p : p \in DOMAIN sub[x]} : x \in DOMAIN sub}
         IN [p \in ps |-> sub[p[1]][Tail(p)]]

RECURSIVE CutAt(_, _, _)
CutAt(nd, n, S) ==   \* node table with the leaves in S (relative paths) removed below n
    IF nd[n].k # "branch" THEN nd
    ELSE LET gone == {x \in DOMAIN nd[n].kids :
                        /\ S \cap {<<x>> \o p : p \in DOMAIN Leaves(nd, nd[n].kids[x])} # {}
                        /\ {<<x>> \o p : p \in DOMAIN Leaves(nd, nd[n].kids[x])} \subseteq S}
             keep == DOMAIN nd[n].kids \ gone
             nd1 == [nd EXCEPT ![n].kids = [x \in keep |-> nd[n].kids[x]]]
             RECURSIVE Sub(_, _)
             Sub(m, K) == IF K = {} THEN m
                          ELSE LET x == CHOOSE y \in K : TRUE IN
                               Sub(CutAt(m, nd[n].kids[x], {Tail(p) : p \in {q \in S : q[1] = x}}), K \ {x})
         IN Sub(nd1, keep)

\* nodes below the root are locked one after the other; a handle's owner may hold one
Busy(t) == \E u \in Threads \ {t} : \E n \in 2..Len(node) :
              PathsTo(Root, n) # {} /\ (<<u, n>> \in wr \/ <<u, n>> \in rd)
Del(t) ==
    LET L == Leaves(node, Root)
        S == Sel(L, Call(t).p)
        nd == CutAt(node, Root, S) IN
    /\ pc[t] = "del"
    /\ DelLocks => ~Busy(t)
    /\ bad' = (bad \/ S # Sel(map, Call(t).p) \/ (~DelLocks /\ Busy(t)))
    /\ node' = IF DOMAIN L = S /\ S # {} THEN [nd EXCEPT ![Root] = [k |-> "nil", kids |-> <<>>, v |-> 0]] ELSE nd
    /\ map' = Without(map, Sel(map, Call(t).p))
    /\ Unlock(t) /\ Finish(t, "deleted")
    /\ UNCHANGED <<wait, at, i, locks, handle>>

Next == /\ prog' = prog
        /\ \E t \in Threads :
          \/ WantR(t) \/ LookAdd(t) \/ WantX(t) \/ GotX(t) \/ Slow(t) \/ Term(t)
          \/ LookGet(t) \/ HLock(t) \/ HSet(t) \/ DelWant(t) \/ DelGot(t) \/ Del(t)

AllDone == \A t \in Threads : pc[t] = "done"
Spec == Init /\ [][Next \/ (AllDone /\ UNCHANGED vars)]_vars

(* ---- properties ---- *)
Linear == ~bad
LockOK == \A n \in 1..Len(node) :
            /\ Cardinality({t \in Threads : <<t, n>> \in wr}) <= 1
            /\ (\E t \in Threads : <<t, n>> \in wr) => ~ \E t \in Threads : <<t, n>> \in rd
\* no structural change in progress: the tree is the map
NoneSlow == wr = {}
Represents == NoneSlow => LET L == Leaves(node, Root) IN DOMAIN L = DOMAIN map /\ \A p \in DOMAIN L : L[p] = map[p]
=============================================================================
