----------------------------- MODULE CodecTrace -----------------------------
(* What path indexing, joining, query conversion, scalar conversion and     *)
(* value equality of the real code returned.                                *)
EXTENDS PathIndex, Values, TraceLib

VARIABLE l
E == Trace[l]

Reset == E.e = "reset"

\* r: the distinct results over many conversions of equal paths (maps built in
\* different orders, clones, copies that went over the wire)
Idx == /\ E.e = "idx"
       /\ \E w \in {TLCEval(Want(E.p, E.pre))} :
            Judge(l, E.r = <<w>>, "index " \o ToString(E.r) \o ", expected " \o ToString(w))
IdxNil == E.e = "idxnil" /\ Judge(l, E.r = <<>>, "index of no path: " \o ToString(E.r))

\* out: the distinct outcomes [err, r]
Join == /\ E.e = "join"
        /\ \E a \in {TLCEval(RankedPath(E.a))} : \E b \in {TLCEval(RankedPath(E.b))} :
           IF Conflict(a, b)
           THEN Judge(l, \A i \in DOMAIN E.out : E.out[i].err, "conflicting origins accepted")
           ELSE \E w \in {TLCEval(Joined(a, b))} :
                Judge(l, Len(E.out) = 1 /\ ~E.out[1].err /\ E.out[1].r = w,
                      "join " \o ToString(E.out) \o ", expected " \o ToString(w))

Query == /\ E.e = "query"
         /\ IF E.err THEN Judge(l, FALSE, "a query of plain elements is refused")
            ELSE Judge(l, \A i \in DOMAIN E.r : E.r[i] = E.q, "reaches the server as " \o ToString(E.r))

\* err: the conversion to a value was refused; scalars of supported types are not
Scalar == /\ E.e = "scalar"
          /\ IF E.err THEN Judge(l, ~E.supported, "a supported scalar is refused")
             ELSE Judge(l, E.back /\ E.r = E.v, "comes back as " \o ToString(E.r))

Eq == /\ E.e = "eq"
      /\ Judge(l, Symmetric(E.ab, E.ba), "equality is not symmetric")
      /\ Judge(l, Sound(E.a, E.b, E.ab) /\ Sound(E.b, E.a, E.ba), "different values reported equal")

Ok == E.e = "ok"     \* totality only: it returned
Panic == E.e \in {"panic", "stuck"} /\ Bad(l, E.e)

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Idx \/ IdxNil \/ Join \/ Query \/ Scalar \/ Eq \/ Ok \/ Panic)
Spec == Init /\ [][Next]_l
Consumed == Finished(TLCGet("stats").diameter - 1)
=============================================================================
