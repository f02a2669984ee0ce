-------------------------- MODULE ConfigConcTrace ---------------------------
(* C17: loads from several goroutines at once.  Every load takes effect at  *)
(* one moment between its call and its return; the calls of one load are    *)
(* over before the next accepted load takes effect.                         *)
EXTENDS Config, TraceLib
VARIABLES l, cur, R, st
vars == <<l, cur, R, st>>

Init == l = 1 /\ cur = NoConfig /\ R = <<>> /\ st = <<>> /\ TLCSet(1, 0)
E == Trace[l]
Adv == l <= Len(Trace) /\ l' = l + 1
SetG(g, x) == TLCEval([y \in DOMAIN st \cup {g} |-> IF y = g THEN x ELSE st[y]])
Idle == [s |-> "idle"]
V == IF None(cur) THEN <<>> ELSE View(cur)
NoCall(x) == IF x.k = "del" THEN [k |-> "del", n |-> x.n] ELSE [k |-> x.k, n |-> x.n, v |-> x.v]

Take(g) ==
    /\ st[g].s = "called"
    /\ \A y \in DOMAIN st : st[y].s = "in" => st[y].todo = {}
    /\ \E ok \in {Accepts(cur, st[g].cf)} :
       /\ st' = SetG(g, [s |-> "in", ok |-> ok, old |-> cur,
                         todo |-> IF ok THEN Calls(V, View(st[g].cf)) ELSE {}])
       /\ cur' = IF ok THEN st[g].cf ELSE cur
    /\ UNCHANGED <<l, R>>

Next ==
    \/ \E g \in DOMAIN st : l <= Len(Trace) /\ Take(g)
    \/ /\ Adv
       /\ CASE E.e = "reset" -> cur' = NoConfig /\ R' = <<>> /\ st' = <<>>
            [] E.e = "call" -> st' = SetG(E.g, [s |-> "called", cf |-> E.cf]) /\ UNCHANGED <<cur, R>>
            [] E.e = "h" -> \E x \in {NoCall(E)} :
                            /\ E.g \in DOMAIN st /\ st[E.g].s = "in" /\ x \in st[E.g].todo
                            /\ st' = SetG(E.g, [st[E.g] EXCEPT !.todo = @ \ {x}])
                            /\ Legal(R, x)
                            /\ R' = Follow(R, x) /\ UNCHANGED cur
            [] E.e = "ret" -> /\ st[E.g].s = "in" /\ st[E.g].todo = {} /\ st[E.g].ok = (E.err = "ok")
                              /\ st' = SetG(E.g, Idle) /\ UNCHANGED <<cur, R>>
            [] E.e = "cur" -> /\ \A y \in DOMAIN st : st[y].s = "idle"
                              /\ R = V
                              /\ IF None(cur) THEN TRUE
                                 ELSE E.cur.rev = cur.rev /\ E.cur.req = cur.req /\ E.cur.tgt = cur.tgt
                              /\ UNCHANGED <<cur, R, st>>
            [] OTHER -> E.e = "end" /\ UNCHANGED <<cur, R, st>>

Spec == Init /\ [][Next]_vars
Progress == Mark(l)
Consumed == Finished(TLCGet(1) - 1)
=============================================================================
