---------------------------- MODULE ManagerTrace ----------------------------
(* C13: what the manager does for its targets, as seen by its callbacks and *)
(* by scripted connections and streams.  Add and Remove take effect at one  *)
(* moment between call and return; everything else is judged per target.    *)
EXTENDS TraceLib
VARIABLES l, cfg, tg, calls
vars == <<l, cfg, tg, calls>>

E == Trace[l]
Set(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
Drop(f, k) == TLCEval([x \in DOMAIN f \ {k} |-> f[x]])
Slack == 2000

\* a target as added at time a; again: the name was used before
Fresh(a, T, again) ==
    [on |-> TRUE, T |-> T, again |-> again,
     try |-> 0, tryAt |-> -1,          \* attempts, start of the last one
     busy |-> FALSE, last |-> a,       \* an attempt is under way; last end
     fails |-> 0,                      \* short attempts without a connection in a row
     s |-> "none",                     \* none, open, live (received on), over
     got |-> FALSE, conn |-> FALSE, q |-> <<>>,
     owed |-> 0, opt |-> FALSE,        \* Resets still due; one that may come
     lost |-> FALSE,                   \* messages may have been dropped
     w |-> -1, tie |-> -1,             \* waiting for a message since; late message
     recAt |-> -1, kill |-> -1]
Never == [Fresh(0, 0, FALSE) EXCEPT !.on = FALSE]
Tg(n) == IF n \in DOMAIN tg THEN tg[n] ELSE Never
On(n) == Tg(n).on
Pending(n, op) == \E c \in DOMAIN calls : calls[c].n = n /\ calls[c].op = op /\ calls[c].res = ""

Init == l = 1 /\ cfg = <<>> /\ tg = <<>> /\ calls = <<>> /\ TLCSet(1, 0)

----------------------------------------------------------------------------
\* the moment an operation takes effect
AddEff(c) == LET n == calls[c].n IN
    /\ calls[c].op = "add"
    /\ IF ~On(n) /\ calls[c].valid
       THEN tg' = Set(tg, n, Fresh(calls[c].at, calls[c].T, n \in DOMAIN tg)) /\ calls' = [calls EXCEPT ![c].res = "ok"]
       ELSE UNCHANGED tg /\ calls' = [calls EXCEPT ![c].res = "err"]
RmEff(c) == LET n == calls[c].n IN
    /\ calls[c].op = "rm"
    /\ IF On(n)
       \* every stream has ended and was reset
       THEN /\ tg[n].owed = 0 /\ tg[n].s # "live"
            /\ tg' = [tg EXCEPT ![n] = Never] /\ calls' = [calls EXCEPT ![c].res = "ok"]
       ELSE UNCHANGED tg /\ calls' = [calls EXCEPT ![c].res = "err"]
RecEff(c) == LET n == calls[c].n IN
    /\ calls[c].op = "rec" /\ UNCHANGED tg
    /\ calls' = [calls EXCEPT ![c].res = IF On(n) THEN "ok" ELSE "err"]
Effect == /\ \E c \in DOMAIN calls : calls[c].res = "" /\ (AddEff(c) \/ RmEff(c) \/ RecEff(c))
          /\ UNCHANGED <<l, cfg>>

----------------------------------------------------------------------------
\* what must have happened by now
Timely(t, at, removing) ==
    (t.on /\ ~removing) =>
       /\ (~t.busy) => at - t.last <= cfg.hi + Slack
       /\ (t.busy /\ t.s = "live" /\ t.w >= 0 /\ t.T > 0) => at - t.w <= t.T + Slack
       /\ (t.busy /\ t.kill >= 0) => at - t.kill <= Slack
\* reasons for the end of a stream that nobody but the manager ended
Cause(t, n) == \/ Pending(n, "rm") \/ Pending(n, "rec") \/ t.recAt >= t.tryAt
               \/ t.T > 0 /\ t.w >= 0 /\ E.at - t.w >= t.T
               \/ t.tie >= t.tryAt
               \/ t.again

EndAttempt(t, at) == [t EXCEPT !.busy = FALSE, !.last = at, !.kill = -1]
Fail1(t, at) == IF t.conn \/ at - t.tryAt > 60000 THEN [t EXCEPT !.fails = 0] ELSE [t EXCEPT !.fails = @ + 1]

Try(t) ==
    /\ t.on /\ ~t.busy /\ t.s \in {"none", "over"}
    \* backoff, unless the previous attempt was ended by force
    /\ t.try > 0 => (t.recAt >= t.tryAt \/ E.at + 1 - t.last >= cfg.lo)
    /\ (t.fails >= 12 /\ t.recAt < t.tryAt) => E.at - t.last > cfg.grown
    /\ tg' = Set(tg, E.n, [t EXCEPT !.try = @ + 1, !.tryAt = E.at, !.busy = TRUE, !.s = "none", !.opt = FALSE])
TryEnd(t) ==
    /\ tg' = Set(tg, E.n, IF E.ok THEN t ELSE Fail1(EndAttempt(t, E.at), E.at))
Open(t) ==
    /\ t.on /\ t.busy
    /\ tg' = Set(tg, E.n, IF E.ok THEN [t EXCEPT !.s = "open", !.got = FALSE, !.q = <<>>, !.w = -1, !.tie = -1, !.lost = FALSE]
                          ELSE Fail1(EndAttempt(t, E.at), E.at))
SendFail(t) == tg' = Set(tg, E.n, [Fail1(EndAttempt(t, E.at), E.at) EXCEPT !.opt = TRUE, !.s = "over"])
Wait(t) == tg' = Set(tg, E.n, [t EXCEPT !.s = "live", !.w = E.at])
Recv(t) ==
    /\ t.s = "live"
    /\ tg' = Set(tg, E.n,
          [t EXCEPT !.got = TRUE, !.w = -1,
                    !.tie = IF t.T > 0 /\ E.at - t.w >= t.T THEN E.at ELSE @,
                    !.q = IF E.k \in {"upd", "sync"} THEN Append(@, <<E.k, E.id>>) ELSE @])
\* the stream has ended
Over(t) ==
    /\ t.s = "live"
    /\ E.k = "ctx" => Cause(t, E.n)
    /\ tg' = Set(tg, E.n, [Fail1(EndAttempt(t, E.at), E.at) EXCEPT !.s = "over", !.owed = @ + 1, !.lost = E.k = "ctx", !.w = -1])
\* callbacks
Connect(t) ==
    /\ t.on /\ t.got /\ ~t.conn /\ t.owed = (IF t.s = "over" THEN 1 ELSE 0)
    /\ tg' = Set(tg, E.n, [t EXCEPT !.conn = TRUE])
Deliver(t) ==
    /\ t.on /\ t.conn /\ Len(t.q) > 0 /\ Head(t.q) = <<E.e, E.id>>
    /\ tg' = Set(tg, E.n, [t EXCEPT !.q = Tail(@)])
ResetCb(t) ==
    /\ t.on
    /\ \/ t.owed = 1 /\ (t.lost \/ (t.q = <<>> /\ t.conn = t.got))
       \/ t.owed = 0 /\ t.opt
    /\ tg' = Set(tg, E.n, [t EXCEPT !.owed = 0, !.opt = FALSE, !.conn = FALSE, !.got = FALSE, !.q = <<>>])
Report(t) == /\ t.on
             /\ tg' = Set(tg, E.n, IF t.busy /\ t.s = "none" THEN Fail1(EndAttempt(t, E.at), E.at) ELSE t)

Seen == /\ E.e \in {"try", "tryend", "open", "sendfail", "wait", "recv", "over", "connect", "upd", "sync", "rst", "connerr", "monerr"}
        /\ UNCHANGED <<cfg, calls>>
        /\ \E t \in {Tg(E.n)} :
           /\ Timely(t, E.at, Pending(E.n, "rm"))
           /\ CASE E.e = "try" -> Try(t)
                [] E.e = "tryend" -> TryEnd(t)
                [] E.e = "open" -> Open(t)
                [] E.e = "sendfail" -> SendFail(t)
                [] E.e = "wait" -> Wait(t)
                [] E.e = "recv" -> Recv(t)
                [] E.e = "over" -> Over(t)
                [] E.e = "connect" -> Connect(t)
                [] E.e \in {"upd", "sync"} -> Deliver(t)
                [] E.e = "rst" -> ResetCb(t)
                [] OTHER -> Report(t)
Tick == E.e = "tick" /\ (\A n \in DOMAIN tg : Timely(tg[n], E.at, Pending(n, "rm"))) /\ UNCHANGED <<cfg, tg, calls>>

Call == /\ E.e = "call" /\ UNCHANGED cfg
        /\ calls' = Set(calls, E.c, [op |-> E.op, n |-> E.n, at |-> E.at, T |-> E.T, valid |-> E.valid, res |-> "", try |-> IF Tg(E.n).busy THEN Tg(E.n).try ELSE 0])
        /\ tg' = IF E.op = "rec" /\ On(E.n) THEN [tg EXCEPT ![E.n].recAt = E.at] ELSE tg
Ret == /\ E.e = "ret" /\ UNCHANGED cfg
       /\ calls[E.c].res = E.res
       /\ \E k \in {calls[E.c]} :
          tg' = IF k.op # "rec" \/ ~On(k.n) THEN tg
                ELSE LET t == tg[k.n] IN
                     [tg EXCEPT ![k.n] = [t EXCEPT !.recAt = E.at, !.kill = IF t.busy /\ t.s # "none" /\ k.try = t.try THEN E.at ELSE @]]
       /\ calls' = Drop(calls, E.c)
End == E.e = "end" /\ calls = <<>> /\ (\A n \in DOMAIN tg : ~tg[n].on) /\ UNCHANGED <<cfg, tg, calls>>
Start == E.e = "reset" /\ cfg' = [lo |-> E.lo, hi |-> E.hi, grown |-> E.grown] /\ tg' = <<>> /\ calls' = <<>>

Next == /\ l <= Len(Trace)
        /\ \/ Effect
           \/ l' = l + 1 /\ (Seen \/ Tick \/ Call \/ Ret \/ End \/ Start)

Spec == Init /\ [][Next]_vars
Progress == Mark(l)
Consumed == Finished(TLCGet(1) - 1)
=============================================================================
