---------------------------- MODULE QueryCodecMC ----------------------------
EXTENDS QueryCodec, TLC, Json
CONSTANTS Chars, MaxLen, MaxEl, Gen,
          Route  \* "text": as text; "raw": without escaping; "real": what the client does
VARIABLE q

Els == UNION {[1..n -> Chars] : n \in 1..MaxLen}
Init == q = <<>>
Next == \E e \in Els : /\ Len(q) < MaxEl /\ q' = Append(q, e)
                       /\ IF Gen THEN PrintT("@@HIST " \o ToJson(q')) ELSE TRUE
Spec == Init /\ [][Next]_q

Got == CASE Route = "text" -> Arrives(Text(q, {SL}))
         [] Route = "raw" -> Arrives(Text(q, {}))
         [] OTHER -> IF \A i \in DOMAIN q : Plain(q[i]) THEN Literal(q) ELSE Arrives(Text(q, {SL}))

\* plain elements arrive as they are
Faithful == (\A i \in DOMAIN q : Plain(q[i])) => (~Got.err /\ Got.r = q)
\* of elements without escapes or spaces the text route alone is faithful
Simple(e) == Plain(e) /\ \A i \in DOMAIN e : e[i] \notin {BS, SP}
TextFaithful == (\A i \in DOMAIN q : Simple(q[i])) => (~Arrives(Text(q, {SL})).err /\ Arrives(Text(q, {SL})).r = q)
\* text and literal agree where both apply: a keyed element elsewhere in the
\* query does not change what the plain ones become
KeyedOK == \A i \in DOMAIN q : Simple(q[i]) =>
    LET m == Arrives(Text(<<q[i], <<97, LB, 98, EQ, 99, RB>>>>, {SL})) IN ~m.err /\ m.r = <<q[i], <<97>>, <<99>>>>
=============================================================================
