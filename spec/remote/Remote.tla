------------------------------- MODULE Remote --------------------------------
(* What a message of a remote peer meets on its way through the cache, the   *)
(* client library's tree and the CLI's display.  Every partial operation on  *)
(* the way (indexing a path, a type assertion, a comparison of values, the   *)
(* visit of a node) is preceded by a guard; Guards is the set of those that  *)
(* are in place.  Without its guard, an operation outside its domain is a    *)
(* crash.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Guards, Pres, Suffixes, Kinds, Stamps, MaxMsgs, Gen

VARIABLES tree,   \* cache: path -> [kind, ts]
          view,   \* client's tree: path -> kind
          crash, prev, last, hist
vars == <<tree, view, crash, prev, last, hist>>

Nil == <<"nil">>    \* no path at all

Msgs == [op : {"update", "atomic", "delete"}, pre : Pres, path : Suffixes, kind : Kinds, ts : Stamps]
Sane(m) == /\ m.op = "delete" => m.kind = CHOOSE k \in Kinds : TRUE
           /\ m.op = "atomic" => m.path = Nil

Has(g) == g \in Guards
Full(m) == m.pre \o (IF m.path = Nil \/ m.op = "atomic" THEN <<>> ELSE m.path)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Strip(q) == IF Len(q) > 0 /\ q[Len(q)] = "*" THEN SubSeq(q, 1, Len(q) - 1) ELSE q
Selects(q, p) == LET s == Strip(q) IN Len(p) >= Len(s) /\ \A i \in 1..Len(s) : s[i] = "*" \/ s[i] = p[i]

Drop(f, S) == [p \in DOMAIN f \ S |-> f[p]]
Put(f, p, v) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN v ELSE f[q]]

(* the result of a stage: [r, t] with r one of ok, err, crash *)
R(r, t) == [r |-> r, t |-> t]
Guarded(g, t) == IF Has(g) THEN R("err", t) ELSE R("crash", t)

\* cache ingest of an update, or of an atomic group at its prefix
Store(t, p, m) ==
    IF p \in DOMAIN t
    THEN IF m.ts < t[p].ts \/ (m.ts = t[p].ts /\ m.kind = t[p].kind) THEN R("err", t)
         ELSE IF t[p].kind = "double" /\ m.kind = "none" /\ ~Has("nilvalue") THEN R("crash", t)
         ELSE R("ok", Put(t, p, [kind |-> m.kind, ts |-> m.ts]))
    ELSE IF \E q \in DOMAIN t : IsPrefix(p, q) THEN Guarded("branch", t)   \* the node holds no notification
    ELSE IF \E q \in DOMAIN t : IsPrefix(q, p) THEN R("err", t)
    ELSE R("ok", Put(t, p, [kind |-> m.kind, ts |-> m.ts]))
Update(t, m) ==
    LET p == Full(m) IN
    IF p = <<>> THEN Guarded("emptypath", t)
    ELSE IF p[1] # "meta" THEN Store(t, p, m)
    ELSE IF Len(p) = 1 THEN Guarded("metaroot", t)
    ELSE IF p[2] = "sync" /\ m.kind # "bool" THEN Guarded("metatype", t)
    ELSE Store(t, p, m)
Delete(t, m) ==
    LET p == Full(m)
        S == {q \in DOMAIN t : Selects(p, q) /\ t[q].ts < m.ts}
    IN IF p = <<>> /\ ~Has("rootdelete") THEN R("crash", t)           \* first element of the path
       ELSE IF DOMAIN t = {} /\ p # <<>> /\ p[1] = "*" /\ ~Has("emptytree") THEN R("crash", t)  \* the root holds no value
       ELSE R("ok", Drop(t, S))
Ingest(t, m) == IF m.op = "delete" THEN Delete(t, m) ELSE Update(t, m)

\* the client library's tree: the target leads when there is one (here none)
Recv(v, m) ==
    LET p == Full(m) IN
    IF m.op = "delete" THEN R("ok", Drop(v, {q \in DOMAIN v : Selects(p, q)}))
    ELSE IF m.path = Nil THEN Guarded("nopath", v)
    ELSE IF m.kind = "none" THEN R("ok", v)
    ELSE IF \E q \in DOMAIN v : q # p /\ (IsPrefix(p, q) \/ IsPrefix(q, p)) THEN R("err", v)
    ELSE R("ok", Put(v, p, m.kind))

\* nested maps by path element; a leaf in place of the whole tree has no element
Display(v) == IF <<>> \in DOMAIN v /\ ~Has("displayroot") THEN "crash" ELSE "ok"

Init == /\ tree = <<>> /\ view = <<>> /\ crash = FALSE /\ hist = <<>>
        /\ prev = [tree |-> tree, view |-> view] /\ last = [r |-> "ok", c |-> "ok", m |-> [op |-> "none"]]
Receive(m) ==
    \E a \in {TLCEval(Ingest(tree, m))} : \E b \in {TLCEval(Recv(view, m))} :
    /\ tree' = a.t /\ view' = b.t
    /\ crash' = (crash \/ a.r = "crash" \/ b.r = "crash" \/ Display(b.t) = "crash")
    /\ prev' = IF Gen THEN prev ELSE [tree |-> tree, view |-> view]
    /\ last' = IF Gen THEN last ELSE [r |-> a.r, c |-> b.r, m |-> m]
    /\ IF Gen THEN hist' = Append(hist, m) /\ PrintT("@@HIST " \o ToJson(hist')) ELSE hist' = Append(hist, 0)
Next == ~crash /\ Len(hist) < MaxMsgs /\ \E m \in Msgs : Sane(m) /\ Receive(m)
Spec == Init /\ [][Next]_vars
\* one history for every tree and view that is reached
View == <<tree, view, crash, Len(hist)>>

NoCrash == ~crash
\* a rejected message leaves everything as it was
Intact == /\ last.r = "err" => tree = prev.tree
          /\ last.c = "err" => view = prev.view
\* nothing changes outside what the message addresses
At(f, p) == IF p \in DOMAIN f THEN <<f[p]>> ELSE <<>>
Touched(f, g) == {p \in DOMAIN f \cup DOMAIN g : At(f, p) # At(g, p)}
Addressed(m, p) == IF m.op = "delete" THEN Selects(Full(m), p) ELSE p = Full(m)
Framed == last.m.op # "none" =>
    \A p \in Touched(prev.tree, tree) \cup Touched(prev.view, view) : Addressed(last.m, p)
\* leaves do not nest
PrefixFree == \A p, q \in DOMAIN tree : IsPrefix(p, q) => p = q
ViewPrefixFree == \A p, q \in DOMAIN view : IsPrefix(p, q) => p = q
\* the metadata has its types
MetaTyped == <<"meta", "sync">> \in DOMAIN tree => tree[<<"meta", "sync">>].kind = "bool"
=============================================================================
