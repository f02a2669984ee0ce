---------------------------- MODULE ClientTrace -----------------------------
(* C18: recorded Subscribe and Close calls, attempts, messages, notifications*)
(* and callbacks of the real clients.  Times are in milliseconds.            *)
(*  sub/subret   Subscribe was called, returned                              *)
(*  close/closeret  Close c was called, returned (ok: not ErrClientInit)     *)
(*  cancel       the caller's context was cancelled                          *)
(*  att          attempt k asks for a connection                             *)
(*  over         attempt k was told that it is over (error, EOF, stop)       *)
(*  recv         message with the notifications n was received               *)
(*  note         the application was given notification x                    *)
(*  disc/reset   callbacks                                                   *)
(*  expect       k attempts have been started by now, the last one is alive  *)
EXTENDS TraceLib

VARIABLES l, s
vars == <<l, s>>
E == Trace[l]

\* the longest k-th backoff interval of consecutive failures
RECURSIVE Grow(_, _, _)
Grow(k, b, max) == IF k <= 1 \/ b >= max THEN IF b > max THEN max ELSE b ELSE Grow(k - 1, (b * 3 + 1) \div 2, max)
Interval(f) == TLCEval((Grow(f, s.b, s.max) * (100 + s.rnd)) \div 100 + 2)

Start == [ph |-> "idle", k |-> 0, t |-> 0, exp |-> <<>>, conn |-> FALSE, over |-> FALSE,
          rc |-> E.rc, cb |-> E.cb, wantconn |-> E.conn, b |-> E.base, max |-> E.max, rnd |-> E.rand,
          subT |-> 0, stop |-> -1, call |-> <<>>, back |-> FALSE, m |-> "", late |-> {}, retd |-> FALSE]

Stopped == s.stop >= 0
\* how long a stopped client may take
Grace == IF s.rc THEN Interval(s.k) ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b

Reset0 == E.e = "reset" /\ s' = Start

Sub == E.e = "sub" /\ s' = [s EXCEPT !.ph = "called", !.subT = E.t, !.t = E.t, !.retd = FALSE]

Close == E.e = "close" /\ s' = [s EXCEPT !.call = [x \in DOMAIN @ \cup {E.c} |-> IF x = E.c THEN E.t ELSE @[x]],
                                         !.stop = IF s.rc /\ @ < 0 THEN E.t ELSE @]
CloseRet == /\ E.e = "closeret"
            /\ Judge(l, E.t - s.call[E.c] <= Grace, "Close took longer than the backoff interval")
            /\ IF s.rc \/ E.ok
               THEN s' = [s EXCEPT !.back = TRUE, !.stop = IF @ < 0 THEN E.t ELSE @]
               ELSE UNCHANGED s
Cancel == E.e = "cancel" /\ s' = [s EXCEPT !.stop = IF @ < 0 THEN E.t ELSE @]

Att == /\ E.e = "att"
       /\ Judge(l, ~s.retd, "attempt after Subscribe returned")
       /\ Judge(l, s.ph = "called" \/ s.rc, "attempt repeated by a client that does not reconnect")
       /\ IF s.k = 0 \/ s.ph = "called" THEN Judge(l, s.ph = "called", "callback before the first attempt")
          ELSE IF s.cb THEN Judge(l, s.ph = "reset", "attempt without disconnect and reset before it")
          ELSE Judge(l, Stopped \/ s.over, "attempt while another one lives")
       /\ Judge(l, Stopped \/ s.k = 0 \/ s.cb \/ E.t - s.t <= Interval(s.k), "retry later than the backoff interval")
       /\ s' = [s EXCEPT !.ph = "att", !.k = @ + 1, !.t = E.t, !.exp = <<>>, !.conn = FALSE, !.over = FALSE]

Over == /\ E.e = "over"
        /\ Judge(l, s.ph = "att", "an attempt that has ended")
        /\ s' = [s EXCEPT !.over = TRUE, !.t = E.t]

Recv == /\ E.e = "recv"
        /\ Judge(l, s.ph = "att" /\ ~s.over, "message read from a stream that has ended")
        /\ Judge(l, s.exp = <<>>, "notifications not delivered: " \o ToString(s.exp))
        /\ s' = [s EXCEPT !.exp = (IF s.conn \/ ~s.wantconn THEN <<>> ELSE <<"connected">>) \o E.n,
                          !.conn = TRUE, !.m = E.m]

Note == /\ E.e = "note"
        /\ Judge(l, s.exp # <<>> /\ Head(s.exp) = E.x,
                 "notification " \o E.x \o ", expected " \o ToString(s.exp))
        /\ \E lt \in {IF s.back THEN s.late \cup {s.m} ELSE s.late} :
           /\ Judge(l, Cardinality(lt) <= 1, "notifications of several messages after Close returned: " \o ToString(lt))
           /\ s' = [s EXCEPT !.exp = IF @ # <<>> /\ Head(@) = E.x THEN Tail(@) ELSE <<>>, !.late = lt]

Disc == /\ E.e = "disc"
        /\ Judge(l, s.ph = "att", "disconnect called without an attempt that ended")
        /\ Judge(l, s.over \/ Stopped, "disconnect called while the attempt lives")
        /\ Judge(l, s.exp = <<>>, "notifications not delivered: " \o ToString(s.exp))
        /\ s' = [s EXCEPT !.ph = "ended", !.t = E.t]

ResetCb == /\ E.e = "resetcb"
           /\ Judge(l, s.ph = "ended", "reset called out of turn")
           /\ Judge(l, Stopped \/ E.t - s.t <= Interval(s.k), "reset later than the backoff interval")
           /\ s' = [s EXCEPT !.ph = "reset"]

SubRet == /\ E.e = "subret"
          /\ IF s.rc THEN
               /\ Judge(l, Stopped, "Subscribe of a reconnecting client that was not closed returned")
               /\ Judge(l, ~s.cb \/ s.ph # "att", "Subscribe returned without disconnect for its last attempt")
             ELSE Judge(l, s.over \/ Stopped \/ s.call # <<>>, "Subscribe returned while the stream lives")
          /\ Judge(l, Stopped => E.t - Max2(s.stop, s.subT) <= Grace, "Subscribe took longer than the backoff interval to return")
          /\ s' = [s EXCEPT !.retd = TRUE]

\* BaseClient.Poll: the stream is read again
Poll == E.e = "poll" /\ s' = [s EXCEPT !.ph = "att", !.over = FALSE, !.retd = FALSE]

Expect == /\ E.e = "expect"
          /\ Judge(l, s.k = E.k, "only " \o ToString(s.k) \o " attempts of " \o ToString(E.k))
          /\ Judge(l, s.ph = "att" /\ ~s.over, "the last attempt is not alive")
          /\ UNCHANGED s
End == /\ E.e = "end" /\ Judge(l, s.retd, "Subscribe has not returned") /\ UNCHANGED s
Fatal == E.e \in {"panic", "stuck"} /\ Bad(l, E.e) /\ UNCHANGED s

Init == l = 1 /\ s = [ph |-> "idle"]
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \/ Reset0 \/ Sub \/ Close \/ CloseRet \/ Cancel \/ Att \/ Over \/ Recv \/ Note \/ Disc \/ ResetCb \/ SubRet
           \/ Poll \/ Expect \/ End \/ Fatal
Spec == Init /\ [][Next]_vars
Consumed == Finished(TLCGet("stats").diameter - 1)
=============================================================================
