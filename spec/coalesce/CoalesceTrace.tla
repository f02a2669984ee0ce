---------------------------- MODULE CoalesceTrace ---------------------------
(* Histories of the real queue: calls open ("inv", with the result copied   *)
(* into it), take effect in silent steps, and close ("ret").                *)
EXTENDS Coalesce, TraceLib

VARIABLES l, q, closed, cancelled, pend
vars == <<l, q, closed, cancelled, pend>>

E == Trace[l]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
To(t, s) == pend' = [pend EXCEPT ![t].st = s]

\* Insert: looks at the closed flag, then takes effect
InsCheck(t) == LET c == pend[t].c IN
    /\ c.op = "insert" /\ pend[t].st = "inv"
    /\ IF c.err THEN closed /\ To(t, "done") ELSE ~closed /\ To(t, "open")
    /\ UNCHANGED <<q, closed, cancelled>>
InsPut(t) == LET c == pend[t].c IN
    /\ c.op = "insert" /\ pend[t].st = "open"
    /\ c.new = ~Pending(q, c.it)
    /\ q' = Put(q, c.it)
    /\ To(t, "done")
    /\ UNCHANGED <<closed, cancelled>>

\* Next: an item, or closed when empty, or the context's error
NextItem(t) == LET c == pend[t].c IN
    /\ c.op = "next" /\ pend[t].st = "inv" /\ c.res = "item"
    /\ q # <<>> /\ Head(q).it = c.it /\ Head(q).dup = c.dup
    /\ q' = Tail(q)
    /\ To(t, "done")
    /\ UNCHANGED <<closed, cancelled>>
NextClosed(t) == LET c == pend[t].c IN
    /\ c.op = "next" /\ pend[t].st = "inv" /\ c.res = "closed"
    /\ closed /\ q = <<>>
    /\ To(t, "done")
    /\ UNCHANGED <<q, closed, cancelled>>
NextCtx(t) == LET c == pend[t].c IN
    /\ c.op = "next" /\ pend[t].st = "inv" /\ c.res = "ctx"
    /\ cancelled
    /\ To(t, "done")
    /\ UNCHANGED <<q, closed, cancelled>>

LenNow(t) == LET c == pend[t].c IN
    /\ c.op = "len" /\ pend[t].st = "inv" /\ c.n = Len(q)
    /\ To(t, "done") /\ UNCHANGED <<q, closed, cancelled>>
IsClosed(t) == LET c == pend[t].c IN
    /\ c.op = "isclosed" /\ pend[t].st = "inv" /\ c.closed = closed
    /\ To(t, "done") /\ UNCHANGED <<q, closed, cancelled>>
Close(t) == LET c == pend[t].c IN
    /\ c.op = "close" /\ pend[t].st = "inv" /\ closed' = TRUE
    /\ To(t, "done") /\ UNCHANGED <<q, cancelled>>
Cancel(t) == LET c == pend[t].c IN
    /\ c.op = "cancel" /\ pend[t].st = "inv" /\ cancelled' = TRUE
    /\ To(t, "done") /\ UNCHANGED <<q, closed>>

Silent == /\ \E t \in DOMAIN pend :
               \/ InsCheck(t) \/ InsPut(t) \/ NextItem(t) \/ NextClosed(t) \/ NextCtx(t)
               \/ LenNow(t) \/ IsClosed(t) \/ Close(t) \/ Cancel(t)
          /\ l' = l

Reset == E.e = "reset" /\ q' = <<>> /\ closed' = FALSE /\ cancelled' = FALSE /\ pend' = <<>>
Inv == /\ E.e = "inv" /\ pend' = With(pend, E.t, [c |-> E, st |-> "inv"]) /\ UNCHANGED <<q, closed, cancelled>>
Ret == /\ E.e = "ret" /\ pend[E.t].st = "done" /\ pend' = Drop(pend, E.t) /\ UNCHANGED <<q, closed, cancelled>>
\* every other call is finished and the consumer E.t stays blocked in Next
Blocked == /\ E.e = "blocked"
           /\ pend[E.t].st = "inv" /\ pend[E.t].c.op = "next" /\ DOMAIN pend = {E.t}
           /\ q = <<>> /\ ~closed /\ ~cancelled
           /\ UNCHANGED <<q, closed, cancelled, pend>>

Init == l = 1 /\ q = <<>> /\ closed = FALSE /\ cancelled = FALSE /\ pend = <<>> /\ TLCSet(1, 0)
Next == /\ l <= Len(Trace)
        /\ Silent \/ (l' = l + 1 /\ (Reset \/ Inv \/ Ret \/ Blocked))
Spec == Init /\ [][Next]_vars
Progress == Mark(l)
Consumed == Finished(TLCGet(1) - 1)
InvDistinct == Distinct(q)
=============================================================================
