------------------------------ MODULE LatTrace ------------------------------
(* C15: exported latency statistics are bounded by the latencies observed   *)
(* in their window.  A batch is what is sampled between two refreshes; it   *)
(* belongs to a window while its end lies inside.                           *)
EXTENDS TraceLib
VARIABLES l, prec, cur, bs
vars == <<l, prec, cur, bs>>

None == [n |-> 0, lo |-> 0, hi |-> 0, end |-> 0]
Init == l = 1 /\ prec = 1 /\ cur = None /\ bs = <<>>
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b

Refresh(e) ==
    LET B == IF cur.n = 0 THEN bs ELSE Append(bs, [cur EXCEPT !.end = e.now]) IN
    /\ bs' = SelectSeq(B, LAMBDA b : b.end > e.now - 200)
    /\ cur' = None /\ UNCHANGED prec
    /\ \A i \in DOMAIN e.sets :
         LET s == e.sets[i]
             In == {j \in DOMAIN B : B[j].end > e.now - s.w}
             tol == IF s.k = "avg" THEN prec - 1 ELSE 0
         IN /\ Judge(l, s.w > 0, "unknown statistic " \o s.k)
            /\ Judge(l, In # {}, "a statistic is exported for a window without samples")
            /\ Judge(l, In = {} \/ ((\E j \in In : s.v >= B[j].lo - tol) /\ (\E j \in In : s.v <= B[j].hi + tol)),
                     s.k \o " of window " \o ToString(s.w) \o " is " \o ToString(s.v) \o ", not within the latencies observed: " \o ToString(B))

Next ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
       CASE e.e = "reset" -> prec' = e.prec /\ cur' = None /\ bs' = <<>>
         [] e.e = "sample" ->
              /\ cur' = IF cur.n = 0 THEN [n |-> 1, lo |-> e.lat, hi |-> e.lat, end |-> 0]
                        ELSE [n |-> cur.n + 1, lo |-> Lo(cur.lo, e.lat), hi |-> Hi(cur.hi, e.lat), end |-> 0]
              /\ UNCHANGED <<prec, bs>>
         [] e.e \in {"refresh", "last"} -> Refresh(e)
         [] OTHER -> UNCHANGED <<prec, cur, bs>> /\ Judge(l, FALSE, e.e)

Spec == Init /\ [][Next]_vars
Consumed == Finished(TLCGet("stats").diameter - 1)
=============================================================================
