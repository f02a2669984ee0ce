------------------------------ MODULE Manager -------------------------------
(* One managed target (package manager): the retry loop, its stream, the    *)
(* operations Add, Remove and Reconnect, and the callbacks they cause.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxEnv,     \* environment steps
          Gen, Broken

VARIABLES
    st,       \* "absent", "managed", "removing"
    ctx,      \* the target's context is alive
    sub,      \* the subcontext of the current attempt is alive
    pc,       \* retry loop: none, wait, dial, open, recv, handle, reset, report, exit
    conn,     \* Connect was reported for this stream
    msg,      \* message being handled
    cb,       \* last callback: [k, ...]
    got, fed, \* a message was received in this session / is to be reported
    sess,     \* "none", "open" (stream exists), "ended" (not yet reset)
    env, h
vars == <<st, ctx, sub, pc, conn, msg, cb, got, fed, sess, env, h>>
View == <<st, ctx, sub, pc, conn, msg, cb, got, fed, sess, env>>

None == [k |-> "none"]
Init == /\ st = "absent" /\ ctx = FALSE /\ sub = FALSE /\ pc = "none" /\ conn = FALSE /\ msg = "" /\ cb = None
        /\ got = 0 /\ fed = 0 /\ sess = "none" /\ env = 0 /\ h = <<>>

Quiet == pc \in {"none", "wait", "dial", "open", "recv"}
\* an environment step; in generated histories the loop has settled
Env(x) == /\ IF MaxEnv = 0 THEN env' = env ELSE env < MaxEnv /\ env' = env + 1
          /\ Gen => Quiet /\ ~(pc = "wait" /\ ~ctx)
          /\ h' = IF Gen THEN Append(h, x) ELSE h
          /\ IF Gen THEN PrintT("@@HIST " \o ToJson(h')) ELSE TRUE
Internal == UNCHANGED <<env, h>>

Add == /\ st = "absent" /\ Env("add")
       /\ st' = "managed" /\ ctx' = TRUE /\ sub' = TRUE /\ pc' = "wait" /\ cb' = None
       /\ UNCHANGED <<conn, msg, got, fed, sess>>

Timer == /\ pc = "wait" /\ (ctx \/ ~Gen) /\ Env("timer")
         /\ pc' = "dial" /\ sub' = (IF Broken = "stalesub" THEN sub ELSE ctx) /\ cb' = None
         /\ UNCHANGED <<st, ctx, conn, msg, got, fed, sess>>

DialOk == /\ pc = "dial" /\ sub /\ Env("dialok") /\ pc' = "open" /\ cb' = None
          /\ UNCHANGED <<st, ctx, sub, conn, msg, got, fed, sess>>
DialFail == /\ pc = "dial" /\ sub /\ Env("dialfail") /\ pc' = "report" /\ cb' = None
            /\ UNCHANGED <<st, ctx, sub, conn, msg, got, fed, sess>>
Open == /\ pc = "open" /\ sub /\ Env("open") /\ pc' = "recv" /\ sess' = "open" /\ got' = 0 /\ fed' = 0
        /\ IF Broken = "early" THEN cb' = [k |-> "connect"] /\ conn' = TRUE ELSE cb' = None /\ conn' = FALSE
        /\ UNCHANGED <<st, ctx, sub, msg>>
OpenFail == /\ pc = "open" /\ sub /\ Env("openfail") /\ pc' = "report" /\ cb' = None
            /\ UNCHANGED <<st, ctx, sub, conn, msg, got, fed, sess>>
Cancelled == /\ pc \in {"dial", "open"} /\ ~sub /\ pc' = "report" /\ cb' = None /\ Internal
             /\ UNCHANGED <<st, ctx, sub, conn, msg, got, fed, sess>>

Msg(k) == /\ pc = "recv" /\ sub /\ Env(k) /\ pc' = "handle" /\ msg' = k /\ got' = 1 /\ fed' = 1 /\ cb' = None
          /\ UNCHANGED <<st, ctx, sub, conn, sess>>
Connect == /\ pc = "handle" /\ ~conn /\ conn' = TRUE /\ cb' = [k |-> "connect"] /\ Internal
           /\ UNCHANGED <<st, ctx, sub, pc, msg, got, fed, sess>>
Deliver == /\ pc = "handle" /\ conn /\ pc' = "recv" /\ fed' = 0 /\ cb' = [k |-> msg] /\ Internal
           /\ UNCHANGED <<st, ctx, sub, conn, msg, got, sess>>
Fail == /\ pc = "recv" /\ sub /\ Env("err") /\ pc' = "reset" /\ sess' = "ended" /\ cb' = None
        /\ UNCHANGED <<st, ctx, sub, conn, msg, got, fed>>
Abort == /\ pc = "recv" /\ ~sub /\ Broken # "deaf" /\ Internal /\ sess' = "ended" /\ cb' = None
         /\ pc' = IF Broken = "noreset" THEN "report" ELSE "reset"
         /\ UNCHANGED <<st, ctx, sub, conn, msg, got, fed>>
Reset == /\ pc = "reset" /\ pc' = "report" /\ sess' = "none" /\ conn' = FALSE /\ cb' = [k |-> "reset"] /\ Internal
         /\ UNCHANGED <<st, ctx, sub, msg, got, fed>>
Report == /\ pc = "report" /\ pc' = "wait" /\ cb' = [k |-> "error"] /\ Internal
          /\ UNCHANGED <<st, ctx, sub, conn, msg, got, fed, sess>>
Exit == /\ pc = "wait" /\ ~ctx /\ pc' = "exit" /\ cb' = None /\ Internal
        /\ UNCHANGED <<st, ctx, sub, conn, msg, got, fed, sess>>

\* forced by the user or by the receive timeout
Reconnect == /\ st = "managed" /\ Env("rec") /\ sub' = FALSE /\ cb' = None
             /\ UNCHANGED <<st, ctx, pc, conn, msg, got, fed, sess>>
RemoveCall == /\ st = "managed" /\ Env("rm") /\ st' = "removing" /\ ctx' = FALSE /\ sub' = FALSE /\ cb' = None
              /\ UNCHANGED <<pc, conn, msg, got, fed, sess>>
RemoveRet == /\ st = "removing" /\ (pc = "exit" \/ Broken = "nowait") /\ st' = "absent" /\ cb' = None /\ Internal
             /\ pc' = IF pc = "exit" THEN "none" ELSE pc
             /\ UNCHANGED <<ctx, sub, conn, msg, got, fed, sess>>

Loop == Cancelled \/ Connect \/ Deliver \/ Abort \/ Reset \/ Report \/ Exit \/ RemoveRet
Next == \/ Loop \/ Add \/ Timer \/ DialOk \/ DialFail \/ Open \/ OpenFail
        \/ Msg("upd") \/ Msg("sync") \/ Fail \/ Reconnect \/ RemoveCall
Spec == Init /\ [][Next]_vars
\* fairness of the loop and of the timer, with endless environment
\* (a choice between the timer and the end of the context is not always the timer)
Live == Init /\ [][Next]_vars /\ WF_vars(Loop) /\ SF_vars(Exit) /\ WF_vars(Timer) /\ WF_vars(DialOk \/ DialFail) /\ WF_vars(Open \/ OpenFail)

Silence == [][cb' # None /\ cb' # cb => st # "absent"]_vars
\* discipline of the callbacks
Disciplined ==
    [][/\ (cb'.k = "connect" /\ cb' # cb) => (got >= 1 /\ ~conn /\ sess = "open")
       /\ (cb'.k \in {"upd", "sync"} /\ pc = "handle" /\ pc' = "recv") => (conn /\ sess = "open" /\ fed = 1)
       /\ (sess' = "open" /\ sess # "open") => sess = "none"
       /\ (cb'.k = "reset" /\ cb' # cb) => sess = "ended"]_vars
\* every attempt starts with a live subcontext unless the target is being removed
FreshAttempt == [][(pc = "wait" /\ pc' = "dial") => sub' = ctx]_vars
RemoveEnds == st = "removing" ~> st # "removing"
Retried == (st = "managed" /\ pc = "wait") ~> (pc = "dial" \/ st # "managed")
=============================================================================
