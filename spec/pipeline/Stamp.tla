------------------------------- MODULE Stamp --------------------------------
(* Where the collector puts what a target sends.  The target may name itself *)
(* anything, and give the origin in the prefix, in the paths, or not at all. *)
(* Each notification becomes one per origin, with the origin in its prefix   *)
(* and the configured target.                                                *)
EXTENDS GPath, TLC
CONSTANTS Origins, Broken \* "", "drop": an origin in a path is ignored, "target": the prefix' target is kept
VARIABLE n

El(s) == [i \in DOMAIN s |-> [n |-> s[i], k |-> <<>>]]
Names == {<<>>, <<"a">>, <<"b">>, <<"a", "b">>}
Pres == {[t |-> t, o |-> o, el |-> El(e), old |-> <<>>] : t \in {"", "me", "x"}, o \in Origins, e \in {<<>>, <<"a">>}}
Paths == {[t |-> "", o |-> o, el |-> El(e), old |-> <<>>] : o \in Origins, e \in Names}
Legal(pre, p) == ~Conflict(pre, p)
Notis == {[pre |-> pre, ps |-> <<p, q>>] : pre \in Pres, p \in Paths, q \in Paths}
Default(o) == IF o = "" THEN "openconfig" ELSE o

(* what the target means *)
Meant(m, i) == <<"me", Default(IF m.pre.o # "" THEN m.pre.o ELSE m.ps[i].o)>> \o Index(m.pre) \o Index(m.ps[i])

(* what the collector makes of it *)
Groups(m) == IF m.pre.o # "" \/ Broken = "drop" THEN {m.pre.o} ELSE {m.ps[i].o : i \in DOMAIN m.ps}
Out(m) == {[pre |-> [m.pre EXCEPT !.o = Default(g), !.t = IF Broken = "target" /\ @ # "" THEN @ ELSE "me"],
            ps |-> IF m.pre.o # "" \/ Broken = "drop" THEN m.ps ELSE [i \in DOMAIN m.ps |-> IF m.ps[i].o = g THEN [m.ps[i] EXCEPT !.o = ""] ELSE <<>>]] : g \in Groups(m)}
Put(m) == {<<i, NotiIndex(x.pre, x.ps[i])>> : <<x, i>> \in {<<x, i>> \in Out(m) \X DOMAIN m.ps : x.ps[i] # <<>>}}

Init == n \in {m \in Notis : \A i \in DOMAIN m.ps : Legal(m.pre, m.ps[i])}
Next == UNCHANGED n
Spec == Init /\ [][Next]_n
Placed == Put(n) = {<<i, Meant(n, i)>> : i \in DOMAIN n.ps}
(* a subscription that names the same origin, in any way, finds it *)
Found == \A i \in DOMAIN n.ps : \A pre \in {[t |-> "me", o |-> o, el |-> <<>>, old |-> <<>>] : o \in Origins} :
           \A p \in {[t |-> "", o |-> o, el |-> El(e), old |-> <<>>] : o \in Origins, e \in Names} :
             LET q == Joined(pre, p)
                 at == Tail(Meant(n, i))
             IN ~Conflict(pre, p) /\ (pre.o # "" \/ p.o # "") =>
                (Selects(q, at) <=> /\ at[1] = (IF pre.o # "" THEN pre.o ELSE p.o)
                                    /\ Selects(Index(p), Tail(at)))
=============================================================================
