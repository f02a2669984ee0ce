----------------------------- MODULE QueryCodec -----------------------------
(* How a client query reaches the server.  An element is a sequence of code *)
(* points.  Queries with list keys travel as text: elements are joined with *)
(* '/', which is escaped inside an element, and the text is split and its   *)
(* elements parsed (two passes, each removing a level of escapes).  Queries *)
(* of plain elements are taken literally.                                   *)
EXTENDS GPath
LOCAL INSTANCE SequencesExt

BS == 92  SL == 47  SP == 32  LB == 91  RB == 93  EQ == 61

Plain(e) == e # <<>> /\ \A i \in DOMAIN e : e[i] \notin {LB, RB}

Escape(e, S) == Fold(LAMBDA a, c : a \o (IF c \in S THEN <<BS, c>> ELSE <<c>>), <<>>, e)
Join(q, S) == Fold(LAMBDA a, i : a \o (IF i = 1 THEN <<>> ELSE <<SL>>) \o Escape(q[i], S), <<>>, [i \in DOMAIN q |-> i])

\* pass 1: split at unescaped '/' outside brackets
SplitStep(a, c) ==
    IF c = SL /\ ~a.esc /\ ~a.key THEN [a EXCEPT !.parts = Append(@, a.buf), !.buf = <<>>]
    ELSE IF c = BS /\ ~a.esc /\ ~a.key THEN [a EXCEPT !.esc = TRUE]
    ELSE [parts |-> a.parts, buf |-> Append(a.buf, c), esc |-> FALSE,
          key |-> IF c = LB /\ ~a.esc THEN TRUE ELSE IF c = RB /\ ~a.esc THEN FALSE ELSE a.key]
Split(s) == LET a == Fold(SplitStep, [parts |-> <<>>, buf |-> <<>>, esc |-> FALSE, key |-> FALSE], s)
            IN IF a.buf # <<>> \/ (Len(s) # 1 /\ s # <<>> /\ s[Len(s)] = SL) THEN Append(a.parts, a.buf) ELSE a.parts

\* pass 2: name and keys of an element
ParseStep(a, c) ==
    IF a.err THEN a
    ELSE IF c = LB /\ ~a.esc /\ ~a.val /\ a.key THEN [a EXCEPT !.err = TRUE]
    ELSE IF c = LB /\ ~a.esc /\ ~a.key THEN
         IF a.keys # <<>> THEN [a EXCEPT !.key = TRUE]
         ELSE IF a.buf = <<>> THEN [a EXCEPT !.err = TRUE]
         ELSE [a EXCEPT !.key = TRUE, !.name = a.buf, !.buf = <<>>]
    ELSE IF c = RB /\ ~a.esc /\ ~a.key THEN [a EXCEPT !.err = TRUE]
    ELSE IF c = RB /\ ~a.esc THEN
         IF a.cur = <<>> \/ a.buf = <<>> \/ SP \in {a.cur[i] : i \in DOMAIN a.cur} THEN [a EXCEPT !.err = TRUE]
         ELSE [a EXCEPT !.key = FALSE, !.val = FALSE, !.keys = Append(@, <<a.cur, a.buf>>), !.buf = <<>>, !.cur = <<>>]
    ELSE IF c = BS /\ ~a.esc THEN [a EXCEPT !.esc = TRUE]
    ELSE IF c = EQ /\ a.key /\ ~a.esc /\ ~a.val THEN [a EXCEPT !.cur = a.buf, !.buf = <<>>, !.val = TRUE]
    ELSE [a EXCEPT !.buf = Append(@, c), !.esc = FALSE]
Parse(s) ==
    LET a == Fold(ParseStep, [buf |-> <<>>, name |-> <<>>, keys |-> <<>>, cur |-> <<>>, esc |-> FALSE,
                              key |-> FALSE, val |-> FALSE, err |-> FALSE], s)
        n == IF a.keys = <<>> THEN a.buf ELSE a.name
    IN [n |-> n, k |-> a.keys, err |-> a.err \/ (a.keys # <<>> /\ a.buf # <<>>) \/ SP \in {n[i] : i \in DOMAIN n}]

\* the elements that arrive, or an error
Text(q, S) == LET ps == Split(Join(q, S)) IN [i \in DOMAIN ps |-> Parse(ps[i])]
Arrives(els) == IF \E i \in DOMAIN els : els[i].err THEN [err |-> TRUE, r |-> <<>>]
                ELSE [err |-> FALSE, r |-> Flat([i \in DOMAIN els |-> <<els[i].n>> \o [j \in DOMAIN els[i].k |-> els[i].k[j][2]]])]
Literal(q) == [err |-> FALSE, r |-> q]
=============================================================================
