------------------------------- MODULE JoinMC -------------------------------
(* Joining a prefix and a path: rejected for conflicting origins, otherwise *)
(* the index of the one path they stand for; and what subscriptions and     *)
(* notifications make of the same prefix and path agree.                    *)
EXTENDS PathIndex, TLC, Json
CONSTANTS Gen, MaxEl, MaxOld, Broken
VARIABLES pre, p

K(c, v) == [c |-> c, v |-> v]
Els == {[n |-> "a", k |-> <<>>], [n |-> "b", k |-> <<K(<<107>>, "x")>>],
        [n |-> "b", k |-> <<K(<<98>>, "x"), K(<<97>>, "y")>>], [n |-> "o", k |-> <<>>],
        [n |-> "", k |-> <<K(<<122>>, "1"), K(<<90>>, "2"), K(<<122, 97>>, "")>>]}
Paths == {[t |-> t, o |-> o, el |-> el, old |-> d] :
            t \in {"", "t"}, o \in {"", "o", "O"}, el \in UNION {[1..m -> Els] : m \in 0..MaxEl},
            d \in {<<>>} \cup {<<"a", "b">> : x \in 1..MaxOld}}
Init == /\ pre \in Paths /\ p \in {x \in Paths : x.t = "" \/ x.el = <<>>}
        /\ IF Gen THEN PrintT("@@HIST " \o ToJson([a |-> pre, b |-> p])) ELSE TRUE
Next == FALSE /\ UNCHANGED <<pre, p>>
Spec == Init /\ [][Next]_<<pre, p>>

A == RankedPath(pre)
B == RankedPath(p)
J == CASE Broken = "both" -> Joined(A, B) \o (IF B.el = <<>> THEN <<>> ELSE B.old)
       [] Broken = "pathorigin" -> Index(A) \o NonEmpty(IF A.o # "" THEN A.o ELSE B.o) \o Index(B)
       [] OTHER -> Joined(A, B)
Refuses == IF Broken = "late" THEN A.o # "" /\ B.o # "" ELSE Conflict(A, B)

\* the one path the pair stands for; deprecated elements as plain ones
Conv(x) == IF x.el = <<>> THEN [i \in DOMAIN x.old |-> [n |-> x.old[i], k |-> <<>>]] ELSE x.el
One == [t |-> A.t, o |-> IF A.o # "" THEN A.o ELSE B.o, el |-> Conv(A) \o Conv(B), old |-> <<>>]

IsOne == Refuses \/ J = NonEmpty(One.o) \o Index(One)
\* a conflict: two origins, or an origin that would not lead
Rejects == Refuses <=> \/ A.o # "" /\ B.o # ""
                       \/ B.o # "" /\ Conv(A) # <<>>
\* a notification puts its leaf where a subscription with that prefix and
\* path looks for it
Meets == (~Refuses /\ B.o = "") => NonEmpty(A.t) \o J = NotiIndex(A, B)
=============================================================================
