------------------------------- MODULE Client -------------------------------
(* The client library: Subscribe and Close of a BaseClient and of the        *)
(* ReconnectClient around it (client/reconnect.go, client/client.go).        *)
(*                                                                           *)
(* The Subscribe goroutine runs attempts: a connection is made, installed,   *)
(* and read message by message until it ends.  The reconnecting client calls *)
(* disconnect when an attempt has ended, returns when its context is done,   *)
(* and otherwise sleeps, calls reset and tries again.  Close cancels the     *)
(* context, or leaves the latch for a Subscribe that has not got that far,   *)
(* closes the connection and waits for Subscribe.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, TLCExt

CONSTANTS Closers,     \* callers of Close
          MaxAtt,      \* bound on attempts
          MaxMsg,      \* bound on messages per attempt
          Reconnecting,\* FALSE: the BaseClient on its own
          Cancels,     \* may the caller cancel its context
          Variant,     \* "ok" or a broken design
          GenLen       \* length of printed histories, 0: none

VARIABLES spc,         \* where Subscribe is
          att, msg,    \* attempts started, messages received in this one
          latch, cset, \* ReconnectClient.closed, cancel # nil
          ctx,         \* the context is done
          impl, icl,   \* the installed connection (0: none), is it closed
          bclosed,     \* BaseClient.closed
          cpc, wait,   \* per closer: where it is, does it wait for Subscribe
          disc, rst,   \* callbacks made
          conn,        \* Connected was delivered on this stream
          late,        \* messages delivered after a Close returned
          h
vars == <<spc, att, msg, latch, cset, ctx, impl, icl, bclosed, cpc, wait, disc, rst, conn, late, h>>

Init == /\ spc = "idle" /\ att = 0 /\ msg = 0 /\ latch = FALSE /\ cset = FALSE /\ ctx = FALSE
        /\ impl = 0 /\ icl = FALSE /\ bclosed = FALSE
        /\ cpc = [c \in Closers |-> "c0"] /\ wait = [c \in Closers |-> FALSE]
        /\ disc = 0 /\ rst = 0 /\ conn = FALSE /\ late = 0 /\ h = <<>>

CloseReturned == \E c \in Closers : cpc[c] = "returned"
CloseCalled == \E c \in Closers : cpc[c] # "c0"
Log(o) == IF GenLen = 0 THEN UNCHANGED h ELSE Len(h) < GenLen /\ h' = Append(h, o)

(* ---- the Subscribe goroutine ---- *)
Call == /\ spc = "idle" /\ spc' = IF Reconnecting THEN "init" ELSE "attempt"
        /\ Log([op |-> "sub", x |-> ""])
        /\ UNCHANGED <<att, msg, latch, cset, ctx, impl, icl, bclosed, cpc, wait, disc, rst, conn, late>>

InitDone == /\ spc = "init" /\ spc' = "attempt" /\ cset' = TRUE
            /\ ctx' = (ctx \/ IF Variant = "nolatch" THEN FALSE ELSE latch)
            /\ UNCHANGED <<att, msg, latch, impl, icl, bclosed, cpc, wait, disc, rst, conn, late, h>>

Attempt == /\ spc = "attempt" /\ (att < MaxAtt \/ (ctx /\ att = MaxAtt)) /\ spc' = "connect" /\ att' = att + 1 /\ msg' = 0 /\ conn' = FALSE
           /\ UNCHANGED <<latch, cset, ctx, impl, icl, bclosed, cpc, wait, disc, rst, late, h>>

\* the environment lets the connection succeed or fail; under a context that
\* is done it does not succeed
Connect(x) == /\ spc = "connect" /\ (x = "ok" => ~ctx)
              /\ spc' = IF x = "ok" THEN "install" ELSE "ended"
              /\ Log([op |-> "conn", x |-> x])
              /\ UNCHANGED <<att, msg, latch, cset, ctx, impl, icl, bclosed, cpc, wait, disc, rst, conn, late>>
ConnectCtx == /\ spc = "connect" /\ ctx /\ spc' = "ended"
              /\ UNCHANGED <<att, msg, latch, cset, ctx, impl, icl, bclosed, cpc, wait, disc, rst, conn, late, h>>
Install == /\ spc = "install" /\ spc' = "recv" /\ impl' = att /\ icl' = FALSE /\ bclosed' = FALSE
           /\ UNCHANGED <<att, msg, latch, cset, ctx, cpc, wait, disc, rst, conn, late, h>>

Recv(x) == /\ spc = "recv"
           /\ CASE x = "msg" -> msg < MaxMsg /\ msg' = msg + 1 /\ spc' = "handle"
                [] OTHER -> spc' = "ended" /\ UNCHANGED msg
           /\ Log([op |-> "recv", x |-> x])
           /\ UNCHANGED <<att, latch, cset, ctx, impl, icl, bclosed, cpc, wait, disc, rst, conn, late>>
RecvEnd == /\ spc = "recv" /\ (ctx \/ icl) /\ spc' = "ended"
           /\ UNCHANGED <<att, msg, latch, cset, ctx, impl, icl, bclosed, cpc, wait, disc, rst, conn, late, h>>
Handle == /\ spc = "handle" /\ spc' = "check" /\ conn' = TRUE
          /\ late' = IF CloseReturned THEN late + 1 ELSE late
          /\ UNCHANGED <<att, msg, latch, cset, ctx, impl, icl, bclosed, cpc, wait, disc, rst, h>>
Check == /\ spc = "check"
         /\ spc' = IF bclosed /\ Variant # "nocheck" THEN "ended" ELSE "recv"
         /\ UNCHANGED <<att, msg, latch, cset, ctx, impl, icl, bclosed, cpc, wait, disc, rst, conn, late, h>>

Ended == /\ spc = "ended"
         /\ IF Reconnecting THEN spc' = "ctx" /\ disc' = disc + 1
            ELSE spc' = "returned" /\ UNCHANGED disc
         /\ UNCHANGED <<att, msg, latch, cset, ctx, impl, icl, bclosed, cpc, wait, rst, conn, late, h>>
CtxCheck == /\ spc = "ctx"
            /\ spc' = IF ctx /\ Variant # "noctx" THEN "returned" ELSE "sleep"
            /\ UNCHANGED <<att, msg, latch, cset, ctx, impl, icl, bclosed, cpc, wait, disc, rst, conn, late, h>>
Wake == /\ spc = "sleep" /\ spc' = "reset" /\ Log([op |-> "wake", x |-> ""])
        /\ UNCHANGED <<att, msg, latch, cset, ctx, impl, icl, bclosed, cpc, wait, disc, rst, conn, late>>
Reset == /\ spc = "reset" /\ spc' = "attempt" /\ rst' = rst + 1
         /\ UNCHANGED <<att, msg, latch, cset, ctx, impl, icl, bclosed, cpc, wait, disc, conn, late, h>>

(* ---- Close ---- *)
CloseCall(c) == /\ cpc[c] = "c0" /\ cpc' = [cpc EXCEPT ![c] = IF Reconnecting THEN "c1" ELSE "c2"]
                /\ Log([op |-> "close", x |-> ""])
                /\ UNCHANGED <<spc, att, msg, latch, cset, ctx, impl, icl, bclosed, wait, disc, rst, conn, late>>
CloseLatch(c) == /\ cpc[c] = "c1" /\ cpc' = [cpc EXCEPT ![c] = "c2"]
                 /\ latch' = TRUE /\ ctx' = (ctx \/ cset)
                 /\ wait' = [wait EXCEPT ![c] = cset]
                 /\ UNCHANGED <<spc, att, msg, cset, impl, icl, bclosed, disc, rst, conn, late, h>>
\* without a connection the BaseClient answers ErrClientInit
CloseBase(c) == /\ cpc[c] = "c2"
                /\ cpc' = [cpc EXCEPT ![c] = IF Reconnecting THEN "c3" ELSE IF impl = 0 THEN "refused" ELSE "returned"]
                /\ IF impl = 0 THEN UNCHANGED <<bclosed, icl>>
                   ELSE bclosed' = TRUE /\ icl' = TRUE
                /\ UNCHANGED <<spc, att, msg, latch, cset, ctx, impl, wait, disc, rst, conn, late, h>>
CloseWait(c) == /\ cpc[c] = "c3" /\ (wait[c] => spc = "returned" \/ Variant = "nowait")
                /\ cpc' = [cpc EXCEPT ![c] = "returned"]
                /\ UNCHANGED <<spc, att, msg, latch, cset, ctx, impl, icl, bclosed, wait, disc, rst, conn, late, h>>

Cancel == /\ Cancels /\ ~ctx /\ spc # "returned" /\ ctx' = TRUE /\ Log([op |-> "cancel", x |-> ""])
          /\ UNCHANGED <<spc, att, msg, latch, cset, impl, icl, bclosed, cpc, wait, disc, rst, conn, late>>

Internal == \/ InitDone \/ Attempt \/ ConnectCtx \/ Install \/ RecvEnd \/ Handle \/ Check \/ Ended \/ CtxCheck \/ Reset
            \/ \E c \in Closers : CloseLatch(c) \/ CloseBase(c) \/ CloseWait(c)
Env == \/ Call \/ Wake \/ Cancel
       \/ \E x \in {"ok", "err"} : Connect(x)
       \/ \E x \in {"msg", "err", "eof"} : Recv(x)
       \/ \E c \in Closers : CloseCall(c)
Next == IF GenLen > 0 /\ ENABLED Internal THEN Internal ELSE Internal \/ Env

Fair == /\ WF_vars(InitDone) /\ WF_vars(Attempt) /\ WF_vars(ConnectCtx) /\ WF_vars(Install) /\ WF_vars(RecvEnd)
        /\ WF_vars(Handle) /\ WF_vars(Check) /\ WF_vars(Ended) /\ WF_vars(CtxCheck) /\ WF_vars(Wake) /\ WF_vars(Reset)
        /\ \A c \in Closers : WF_vars(CloseLatch(c)) /\ WF_vars(CloseBase(c)) /\ WF_vars(CloseWait(c))
Spec == Init /\ [][Next]_vars /\ Fair

(* ---- properties ---- *)
TypeOK == /\ spc \in {"idle", "init", "attempt", "connect", "install", "recv", "handle", "check", "ended", "ctx", "sleep", "reset", "returned"}
          /\ att \in 0..MaxAtt+1 /\ msg \in 0..MaxMsg
\* once per ended attempt; reset before each retry
Callbacks == Reconnecting =>
    /\ disc = IF spc \in {"connect", "install", "recv", "handle", "check", "ended"} THEN att - 1 ELSE att
    /\ rst = IF att = 0 THEN 0 ELSE IF spc = "attempt" THEN att ELSE att - 1
\* nothing is delivered by the reconnecting client once Close has returned, one message by the plain one
Late == late <= IF Reconnecting THEN 0 ELSE 1
ConnFirst == spc = "check" => conn
\* the reconnecting client gives up only when told to
Persistent == Reconnecting /\ spc = "returned" => ctx

Effective == IF Reconnecting THEN \E c \in Closers : cpc[c] # "c0" ELSE \E c \in Closers : cpc[c] = "returned"
CloseEnds == \A c \in Closers : cpc[c] # "c0" ~> cpc[c] \in {"returned", "refused"}
SubEnds == (Effective /\ spc # "idle") ~> spc = "returned"
Retries == (spc = "ended" /\ Reconnecting) ~> (spc = "attempt" \/ ctx \/ spc = "returned")

Gen == GenLen > 0 /\ Len(h) > 0 /\ ~ENABLED Internal /\ (Len(h) = GenLen \/ ~ENABLED Env) => PrintT("@@HIST " \o ToJson(h))
=============================================================================
