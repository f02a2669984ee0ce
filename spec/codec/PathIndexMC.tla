---------------------------- MODULE PathIndexMC -----------------------------
(* The conversion visits every element; of an element with keys it reads    *)
(* the map in an arbitrary order, sorts the names and appends the values.   *)
(* Joining takes prefix and path.  Every run must give the one index.       *)
EXTENDS PathIndex, TLC, Json

CONSTANTS Names,       \* key names, sequences of code points
          Vals, Elems, \* key values, element names
          MaxKeys, MaxEl,
          Gen,         \* print the cases
          Broken       \* "", "unsorted", "byvalue", "single", "dropkeys"

NamesDef == {<<97>>, <<97, 97>>, <<66>>}

VARIABLES p,      \* the path
          pre,    \* target and origin requested
          i,      \* next element
          todo,   \* keys of the current element in iteration order, not yet read
          ks,     \* keys read, in sorted order
          out, pc
vars == <<p, pre, i, todo, ks, out, pc>>

Orders(S) == {s \in [1..Cardinality(S) -> S] : \A x, y \in DOMAIN s : x # y => s[x] # s[y]}
KeySets == {f \in UNION {[N -> Vals] : N \in {M \in SUBSET Names : Cardinality(M) <= MaxKeys}} : TRUE}
AsSeq(f) == LET o == CHOOSE x \in Orders(DOMAIN f) : TRUE IN [j \in DOMAIN o |-> [c |-> o[j], v |-> f[o[j]]]]
Els == {[n |-> n, k |-> AsSeq(f)] : n \in Elems, f \in KeySets}
Paths == {[t |-> t, o |-> o, el |-> el, old |-> od] :
            t \in {"", "t"}, o \in {"", "o"},
            el \in UNION {[1..m -> Els] : m \in 0..MaxEl},
            od \in {<<>>, <<"x">>, <<"x", "y">>}}

Init == /\ p \in Paths /\ pre \in BOOLEAN
        /\ i = 1 /\ todo = <<>> /\ ks = <<>> /\ pc = "start" /\ out = <<>>
        /\ IF Gen THEN PrintT("@@HIST " \o ToJson([p |-> p])) ELSE TRUE

Start == /\ pc = "start"
         /\ out' = (IF pre THEN NonEmpty(p.t) \o NonEmpty(p.o) ELSE <<>>)
                   \o (IF p.el = <<>> THEN p.old ELSE <<>>)
         /\ pc' = "elem" /\ UNCHANGED <<p, pre, i, todo, ks>>

\* reach an element: its keys will come in any order
Elem == /\ pc = "elem" /\ i <= Len(p.el)
        /\ out' = Append(out, p.el[i].n)
        /\ \E o \in Orders({p.el[i].k[j] : j \in DOMAIN p.el[i].k}) : todo' = o
        /\ ks' = <<>> /\ pc' = "read" /\ UNCHANGED <<p, pre, i>>

Before(a, b) == CASE Broken = "byvalue" -> a.v < b.v
                  [] Broken = "unsorted" -> FALSE
                  [] OTHER -> Less(a.c, b.c)
\* insertion into the sorted sequence
Insert(s, x) == LET n == Cardinality({j \in DOMAIN s : ~Before(x, s[j])})
                IN SubSeq(s, 1, n) \o <<x>> \o SubSeq(s, n + 1, Len(s))

Read == /\ pc = "read" /\ todo # <<>>
        /\ ks' = Insert(ks, todo[1]) /\ todo' = Tail(todo)
        /\ UNCHANGED <<p, pre, i, out, pc>>

Write == /\ pc = "read" /\ todo = <<>>
         /\ out' = out \o (CASE Broken = "single" /\ Len(ks) = 1 -> <<>>
                             [] Broken = "dropkeys" /\ Len(ks) > 1 -> <<ks[1].v>>
                             [] OTHER -> [j \in DOMAIN ks |-> ks[j].v])
         /\ i' = i + 1 /\ pc' = "elem" /\ UNCHANGED <<p, pre, todo, ks>>

Done == pc = "elem" /\ i > Len(p.el) /\ pc' = "done" /\ UNCHANGED <<p, pre, i, todo, ks, out>>

Next == Start \/ Elem \/ Read \/ Write \/ Done
Spec == Init /\ [][Next]_vars

\* deterministic, whatever the iteration order, and what is asked for
Deterministic == pc = "done" => out = Want(p, pre)
\* an index only grows, element by element
Leading == pc = "done" /\ pre /\ p.t # "" => out[1] = "t"
=============================================================================
