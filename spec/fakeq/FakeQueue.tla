----------------------------- MODULE FakeQueue ------------------------------
(* The synthetic target's generator: values bucketed by timestamp.  Next    *)
(* takes the first value of the first bucket, advances a copy by a step in  *)
(* its delta range and puts the copy at the end of the bucket of its new    *)
(* timestamp, creating the bucket at its place if there is none.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxVals, TS, Deltas, Reps, MaxEmit, Sync, Gen,
          Broken \* "", "append", "front", "offbyone", "latest0", "nosort"

DeltasDef == {<<0, 0>>, <<0, 1>>, <<2, 2>>}

VARIABLES cfg,   \* configured values [ts, lo, hi, rep]
          q,     \* sequence of buckets of [i, ts, rep]
          out,   \* emitted [i, ts]; i = 0 is the sync marker
          pc
vars == <<cfg, q, out, pc>>

Vals == [ts : TS, d : Deltas, rep : Reps]
RECURSIVE Place(_, _)
\* where timestamp t goes: index of its bucket, or of the one to come before
Place(b, t) == IF b = <<>> \/ b[1][1].ts >= t THEN 1 ELSE 1 + Place(Tail(b), t)
Add(b, v) ==
    IF Broken = "append" THEN Append(b, <<v>>)
    ELSE LET k == Place(b, v.ts)
         IN IF k <= Len(b) /\ b[k][1].ts = v.ts
            THEN [b EXCEPT ![k] = IF Broken = "front" THEN <<v>> \o @ ELSE Append(@, v)]
            ELSE SubSeq(b, 1, k - 1) \o <<<<v>>>> \o SubSeq(b, k, Len(b))
RECURSIVE Build(_, _, _)
Build(b, c, i) == IF i > Len(c) THEN b ELSE Build(Add(b, [i |-> i, ts |-> c[i].ts, rep |-> c[i].rep]), c, i + 1)
Latest(c) == CHOOSE t \in {0} \cup {c[i].ts : i \in DOMAIN c} : \A i \in DOMAIN c : c[i].ts <= t
SyncAt(c) == IF Broken = "latest0" THEN IF c = <<>> THEN 0 ELSE c[1].ts ELSE Latest(c)

Init == /\ cfg \in UNION {[1..n -> Vals] : n \in 0..MaxVals}
        /\ q = (LET b == Build(<<>>, cfg, 1) IN IF Sync THEN Add(b, [i |-> 0, ts |-> SyncAt(cfg), rep |-> 1]) ELSE b)
        /\ out = <<>> /\ pc = "run"
        /\ IF Gen THEN PrintT("@@HIST " \o ToJson([v |-> cfg])) ELSE TRUE

Emit == /\ pc = "run" /\ q # <<>> /\ Len(out) < MaxEmit
        /\ LET v == q[1][1]
               rest == IF Len(q[1]) = 1 THEN Tail(q) ELSE <<Tail(q[1])>> \o Tail(q)
               last == v.rep = (IF Broken = "offbyone" THEN 0 ELSE 1)
           IN /\ out' = Append(out, [i |-> v.i, ts |-> v.ts])
              /\ IF last THEN q' = rest
                 ELSE \E s \in (IF v.i = 0 THEN {0} ELSE cfg[v.i].d[1]..cfg[v.i].d[2]) :
                      q' = Add(rest,
                               [v EXCEPT !.ts = IF Broken = "nosort" THEN @ - s ELSE @ + s,
                                         !.rep = IF @ > 1 THEN @ - 1 ELSE @])
        /\ UNCHANGED <<cfg, pc>>
End == pc = "run" /\ q = <<>> /\ pc' = "end" /\ UNCHANGED <<cfg, q, out>>
Next == IF Gen THEN FALSE /\ UNCHANGED vars ELSE Emit \/ End
Spec == Init /\ [][Next]_vars

Count(i) == Cardinality({k \in DOMAIN out : out[k].i = i})
Of(i) == SelectSeq(out, LAMBDA e : e.i = i)
Ordered == \A k \in 1..Len(out) - 1 : out[k].ts <= out[k + 1].ts
Steps == \A i \in DOMAIN cfg : LET o == Of(i) IN
            /\ Len(o) > 0 => o[1].ts = cfg[i].ts
            /\ \A k \in 1..Len(o) - 1 : o[k + 1].ts - o[k].ts \in cfg[i].d[1]..cfg[i].d[2]
Repeats == /\ \A i \in DOMAIN cfg : cfg[i].rep > 0 => Count(i) <= cfg[i].rep
           /\ pc = "end" => \A i \in DOMAIN cfg : cfg[i].rep > 0 /\ Count(i) = cfg[i].rep
           /\ pc = "end" /\ Sync => Count(0) = 1
SyncLate == \A k \in DOMAIN out : out[k].i = 0 => \A i \in DOMAIN cfg : \E m \in 1..k : out[m].i = i
\* the buckets stay sorted, non-empty and of one timestamp each
Sorted == /\ \A k \in DOMAIN q : q[k] # <<>> /\ \A x \in DOMAIN q[k] : q[k][x].ts = q[k][1].ts
          /\ \A k \in 1..Len(q) - 1 : q[k][1].ts < q[k + 1][1].ts
\* values of one timestamp take turns
Turns == \A k \in DOMAIN out : \A m \in DOMAIN out :
            k < m /\ out[k].ts = out[m].ts /\ out[k].i = out[m].i /\ k + 1 < m
              => \A x \in DOMAIN cfg : cfg[x].ts = out[k].ts /\ (\A y \in 1..m : out[y].i # x) => FALSE
=============================================================================
