--------------------------- MODULE MatchConcTrace ---------------------------
(* The filter under concurrent registration, removal and updates: a client  *)
(* registered during the whole of an update that agrees is offered it, once;*)
(* a client is never offered anything unless a registration of it that      *)
(* agrees may be in effect, in particular not after removal returned.       *)
EXTENDS Match, TraceLib

VARIABLES l,
          reg,   \* registrations [h, c, q, st]; st: "adding", "in", "removing"
          upd    \* updates in progress: [u, ps, must (clients), got]
vars == <<l, reg, upd>>
E == Trace[l]

AgreesAny(q, ps) == \E p \in ps : Agree(q, p)
Set(h, st) == {IF r.h = h THEN [r EXCEPT !.st = st] ELSE r : r \in reg}
MayOffer(c, ps) == \E r \in reg : r.c = c /\ AgreesAny(r.q, ps)

\* clients no longer certainly registered need not be offered
Uncertain(R) == {[x EXCEPT !.must = {c \in @ : \E r \in R : r.c = c /\ r.st = "in" /\ AgreesAny(r.q, x.ps)}] : x \in upd}

Reset == E.e = "reset" /\ reg' = {} /\ upd' = {}
AddInv == E.e = "addinv" /\ reg' = reg \cup {[h |-> E.h, c |-> E.c, q |-> E.q, st |-> "adding"]} /\ upd' = upd
AddRet == E.e = "addret" /\ reg' = Set(E.h, "in") /\ upd' = upd
RmInv == E.e = "rminv" /\ reg' = Set(E.h, "removing") /\ upd' = Uncertain(reg')
RmRet == E.e = "rmret" /\ reg' = {r \in reg : r.h # E.h} /\ upd' = Uncertain(reg')

UpdInv == /\ E.e = "updinv" /\ reg' = reg
          /\ LET ps == ToSet(E.ps) IN
             upd' = upd \cup {[u |-> E.u, ps |-> ps, got |-> {},
                               must |-> {r.c : r \in {x \in reg : x.st = "in" /\ AgreesAny(x.q, ps)}}]}
The(u) == CHOOSE x \in upd : x.u = u
Offer == /\ E.e = "offer" /\ reg' = reg
         /\ Judge(l, E.c \notin The(E.u).got, "notification offered twice")
         /\ Judge(l, MayOffer(E.c, The(E.u).ps), "offered to a client with no registration in effect that agrees")
         /\ upd' = {IF x.u = E.u THEN [x EXCEPT !.got = @ \cup {E.c}] ELSE x : x \in upd}
UpdRet == /\ E.e = "updret" /\ reg' = reg
          /\ Judge(l, The(E.u).must \subseteq The(E.u).got, "not offered to " \o ToString(The(E.u).must \ The(E.u).got))
          /\ upd' = upd \ {The(E.u)}
Panic == /\ E.e \in {"panic", "stuck"} /\ Bad(l, E.e) /\ UNCHANGED <<reg, upd>>

Init == l = 1 /\ reg = {} /\ upd = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \/ Reset \/ AddInv \/ AddRet \/ RmInv \/ RmRet \/ UpdInv \/ Offer \/ UpdRet \/ Panic
Spec == Init /\ [][Next]_vars
Consumed == Finished(TLCGet("stats").diameter - 1)
=============================================================================
