----------------------------- MODULE ConnTrace ------------------------------
(* C16: recorded requests, dials, releases and closings.  A request joins   *)
(* the entry of its address, or creates it, at one moment between its call  *)
(* and its return; a failed entry is forgotten between the end of the dial  *)
(* and the first answer; a release takes effect during a call of done.      *)
EXTENDS TraceLib
VARIABLES l, ent, tab, rq
vars == <<l, ent, tab, rq>>

Init == l = 1 /\ ent = <<>> /\ tab = <<>> /\ rq = <<>> /\ TLCSet(1, 0)
E == Trace[l]
Set(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
Drop(f, k) == TLCEval([x \in DOMAIN f \ {k} |-> f[x]])
Ent(k) == CHOOSE n \in DOMAIN ent : ent[n].id = k
Known(k) == \E n \in DOMAIN ent : ent[n].id = k

Join(r) ==
    /\ rq[r].s = "called"
    /\ \E a \in {rq[r].a} :
       IF a \in DOMAIN tab THEN
            /\ ent' = [ent EXCEPT ![tab[a]].ref = @ + 1]
            /\ rq' = Set(rq, r, [rq[r] EXCEPT !.s = "wait", !.n = tab[a]])
            /\ UNCHANGED tab
       ELSE /\ ent' = Append(ent, [a |-> a, id |-> 0, ref |-> 1, st |-> IF rq[r].dl THEN "new" ELSE "failed", closed |-> FALSE, gone |-> FALSE])
            /\ tab' = Set(tab, a, Len(ent) + 1)
            /\ rq' = Set(rq, r, [rq[r] EXCEPT !.s = "wait", !.n = Len(ent) + 1])
    /\ UNCHANGED l

Forget(n) ==
    /\ ent[n].st = "failed" /\ ~ent[n].gone
    /\ ent' = [ent EXCEPT ![n].gone = TRUE]
    /\ tab' = Drop(tab, ent[n].a)
    /\ UNCHANGED <<l, rq>>

Rel(r) ==
    /\ rq[r].s = "hold" /\ rq[r].done > 0
    /\ rq' = Set(rq, r, [rq[r] EXCEPT !.s = "over"])
    /\ \E n \in {rq[r].n} :
       /\ ent' = [ent EXCEPT ![n].ref = @ - 1, ![n].gone = ent[n].ref = 1]
       /\ tab' = IF ent[n].ref = 1 THEN Drop(tab, ent[n].a) ELSE tab
    /\ UNCHANGED l

Silent == \/ \E r \in DOMAIN rq : Join(r) \/ Rel(r)
          \/ \E n \in DOMAIN ent : Forget(n)

Req == /\ E.e = "req"
       /\ rq' = Set(rq, E.r, [s |-> "called", a |-> E.a, dl |-> E.dl, cx |-> E.cx, n |-> 0, done |-> 0])
       /\ UNCHANGED <<ent, tab>>
\* one dial per entry, for the entry the table holds
DialB == /\ E.e = "dial" /\ E.a \in DOMAIN tab /\ ent[tab[E.a]].st = "new"
         /\ ent' = [ent EXCEPT ![tab[E.a]].st = "dialing", ![tab[E.a]].id = E.k]
         /\ UNCHANGED <<tab, rq>>
DialE == /\ E.e = "dialend" /\ Known(E.k) /\ ent[Ent(E.k)].st = "dialing"
         /\ ent' = [ent EXCEPT ![Ent(E.k)].st = IF E.ok THEN "ok" ELSE "failed"]
         /\ UNCHANGED <<tab, rq>>
Ret == /\ E.e = "ret" /\ E.r \in DOMAIN rq
       /\ CASE E.res = "ctx" -> rq[E.r].s = "called" /\ rq[E.r].cx /\ rq' = Set(rq, E.r, [rq[E.r] EXCEPT !.s = "over"])
            [] OTHER ->
               /\ rq[E.r].s = "wait"
               /\ \E x \in {ent[rq[E.r].n]} :
                  /\ x.id = E.k
                  /\ IF E.res = "conn" THEN x.st = "ok" ELSE E.res = "err" /\ x.st = "failed" /\ x.gone
               /\ rq' = Set(rq, E.r, [rq[E.r] EXCEPT !.s = IF E.res = "conn" THEN "hold" ELSE "over"])
       /\ UNCHANGED <<ent, tab>>
DoneB == /\ E.e = "done" /\ rq' = Set(rq, E.r, [rq[E.r] EXCEPT !.done = @ + 1]) /\ UNCHANGED <<ent, tab>>
DoneE == /\ E.e = "doneret" /\ (rq[E.r].done > 1 \/ rq[E.r].s = "over")
         /\ rq' = Set(rq, E.r, [rq[E.r] EXCEPT !.done = @ - 1]) /\ UNCHANGED <<ent, tab>>
Closed == /\ E.e = "closed" /\ Known(E.k)
          /\ \E n \in {Ent(E.k)} : /\ ent[n].st = "ok" /\ ent[n].ref = 0 /\ ~ent[n].closed
                                   /\ ent' = [ent EXCEPT ![n].closed = TRUE]
          /\ UNCHANGED <<tab, rq>>
\* quiet: what nobody holds is closed
Quiet == /\ E.e = "quiet"
         /\ \A r \in DOMAIN rq : rq[r].s \in {"hold", "over", "wait"}
         /\ \A n \in DOMAIN ent : ent[n].st = "ok" => ent[n].closed = (ent[n].ref = 0)
         /\ UNCHANGED <<ent, tab, rq>>
End == E.e = "end" /\ (\A r \in DOMAIN rq : rq[r].s = "over") /\ UNCHANGED <<ent, tab, rq>>
Reset == E.e = "reset" /\ ent' = <<>> /\ tab' = <<>> /\ rq' = <<>>

Next == /\ l <= Len(Trace)
        /\ \/ Silent
           \/ l' = l + 1 /\ (Req \/ DialB \/ DialE \/ Ret \/ DoneB \/ DoneE \/ Closed \/ Quiet \/ End \/ Reset)

Spec == Init /\ [][Next]_vars
Progress == Mark(l)
Consumed == Finished(TLCGet(1) - 1)
=============================================================================
