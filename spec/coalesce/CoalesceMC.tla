----------------------------- MODULE CoalesceMC -----------------------------
(* The queue as the code implements it: Insert checks the closed channel,   *)
(* then inserts under the lock, then offers the wake-up token; Next tries   *)
(* under the lock, then waits for the context, the token or the closed      *)
(* channel, and reports "closed" only after looking at the length again.    *)
EXTENDS Coalesce, TLC

CONSTANTS Producers,   \* each inserts its Work in order
          Items, MaxIns,
          TokenFirst,  \* FALSE is the code; TRUE: (broken) token offered before the insertion
          Drain        \* TRUE is the code; FALSE: (broken) closed reported without the length check

VARIABLES q, closed, token, cancelled,
          pc, item, nins,                  \* producers
          cpc,                             \* consumer: "try", "wait", "len", "end"
          got,                             \* sequence of delivered [it, dup]
          okc,                             \* per item: successful insertions
          before,                          \* insertions completed before the close
          told                             \* consumer was told the queue is closed
vars == <<q, closed, token, cancelled, pc, item, nins, cpc, got, okc, before, told>>

Init == /\ q = <<>> /\ closed = FALSE /\ token = FALSE /\ cancelled = FALSE
        /\ pc = [p \in Producers |-> "idle"] /\ item \in [Producers -> {CHOOSE x \in Items : TRUE}]
        /\ nins = 0
        /\ cpc = "try" /\ got = <<>> /\ okc = [x \in Items |-> 0] /\ before = 0 /\ told = FALSE

Completed == nins - Cardinality({p \in Producers : pc[p] # "idle"})

Start(p) == /\ pc[p] = "idle" /\ nins < MaxIns
            /\ \E x \in Items : item' = [item EXCEPT ![p] = x]
            /\ nins' = nins + 1
            /\ pc' = [pc EXCEPT ![p] = "check"]
            /\ UNCHANGED <<q, closed, token, cancelled, cpc, got, okc, before, told>>

Check(p) == /\ pc[p] = "check"
            /\ IF closed THEN pc' = [pc EXCEPT ![p] = "idle"] /\ token' = token
               ELSE pc' = [pc EXCEPT ![p] = "ins"] /\ token' = (token \/ TokenFirst)
            /\ UNCHANGED <<q, closed, cancelled, item, nins, cpc, got, okc, before, told>>

Ins(p) == /\ pc[p] = "ins"
          /\ pc' = [pc EXCEPT ![p] = IF Pending(q, item[p]) \/ TokenFirst THEN "idle" ELSE "sig"]
          /\ q' = Put(q, item[p])
          /\ okc' = [okc EXCEPT ![item[p]] = @ + 1]
          /\ before' = IF closed THEN before ELSE before + (IF pc'[p] = "idle" THEN 1 ELSE 0)
          /\ UNCHANGED <<closed, token, cancelled, item, nins, cpc, got, told>>

Sig(p) == /\ pc[p] = "sig"
          /\ token' = TRUE
          /\ pc' = [pc EXCEPT ![p] = "idle"]
          /\ before' = IF closed THEN before ELSE before + 1
          /\ UNCHANGED <<q, closed, cancelled, item, nins, cpc, got, okc, told>>

Close == /\ ~closed /\ closed' = TRUE
         /\ UNCHANGED <<q, token, cancelled, pc, item, nins, cpc, got, okc, before, told>>
Cancel == /\ ~cancelled /\ cancelled' = TRUE
          /\ UNCHANGED <<q, closed, token, pc, item, nins, cpc, got, okc, before, told>>

Try == /\ cpc = "try"
       /\ IF q # <<>> THEN /\ got' = Append(got, Head(q)) /\ q' = Tail(q) /\ UNCHANGED cpc
          ELSE cpc' = "wait" /\ UNCHANGED <<got, q>>
       /\ UNCHANGED <<closed, token, cancelled, pc, item, nins, okc, before, told>>

WakeTok == /\ cpc = "wait" /\ token /\ token' = FALSE /\ cpc' = "try"
           /\ UNCHANGED <<q, closed, cancelled, pc, item, nins, got, okc, before, told>>
WakeClosed == /\ cpc = "wait" /\ closed
              /\ IF Drain THEN cpc' = "len" /\ UNCHANGED told ELSE cpc' = "end" /\ told' = TRUE
              /\ UNCHANGED <<q, token, closed, cancelled, pc, item, nins, got, okc, before>>
LenCheck == /\ cpc = "len"
            /\ IF q = <<>> THEN cpc' = "end" /\ told' = TRUE ELSE cpc' = "try" /\ UNCHANGED told
            /\ UNCHANGED <<q, token, closed, cancelled, pc, item, nins, got, okc, before>>
WakeCtx == /\ cpc = "wait" /\ cancelled /\ cpc' = "end"
           /\ UNCHANGED <<q, token, closed, cancelled, pc, item, nins, got, okc, before, told>>

Consumer == Try \/ WakeTok \/ WakeClosed \/ LenCheck \/ WakeCtx
Prod(p) == Start(p) \/ Check(p) \/ Ins(p) \/ Sig(p)
Next == Consumer \/ Close \/ Cancel \/ \E p \in Producers : Prod(p)

Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Consumer) /\ \A p \in Producers : WF_vars(Check(p) \/ Ins(p) \/ Sig(p))

(* ---- properties ---- *)
RECURSIVE Sum(_, _)
Sum(s, x) == IF s = <<>> THEN 0 ELSE (IF Head(s).it = x THEN 1 + Head(s).dup ELSE 0) + Sum(Tail(s), x)
Conservation == \A x \in Items : okc[x] = Sum(got, x) + Sum(q, x)
OnePending == Distinct(q)
\* what completed before the close was delivered before the consumer was told
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE 1 + Head(s).dup + Total(Tail(s))
NoLoss == told => Total(got) >= before
\* no lost wake-up: a waiting consumer with work has a token coming
NoLostWakeup == (cpc = "wait" /\ q # <<>>) => (token \/ closed \/ cancelled \/ \E p \in Producers : pc[p] = "sig")
Woken == (cpc = "wait" /\ (q # <<>> \/ closed \/ cancelled)) ~> (cpc # "wait")
OrderOK == \A a \in DOMAIN got : got[a].dup >= 0
View == <<q, closed, token, cancelled, pc, item, nins, cpc, okc, before, told, Total(got)>>
=============================================================================
