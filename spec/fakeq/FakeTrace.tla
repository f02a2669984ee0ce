----------------------------- MODULE FakeTrace ------------------------------
(* Emissions of the real generator, from the queue and from a fake target.  *)
(* 64-bit numbers come as three limbs, base 2^24, of the number plus 2^63   *)
(* (signed), the number (unsigned) or the order-preserving code of a double.*)
EXTENDS TraceLib

VARIABLES l, cfg, sync, cnt, last, prev, synced, dead
vars == <<l, cfg, sync, cnt, last, prev, synced, dead>>
E == Trace[l]

B == 16777216
Zero == <<32768, 0, 0>>
Top == <<65535, B - 1, B - 1>>
Lt(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ a[2] < b[2]
            \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Le(a, b) == ~Lt(b, a)
Sub(a, b) == \* a - b for b <= a
    LET c3 == IF a[3] < b[3] THEN 1 ELSE 0
        c2 == IF a[2] - c3 < b[2] THEN 1 ELSE 0
    IN <<a[1] - c2 - b[1], a[2] - c3 - b[2] + c2 * B, a[3] - b[3] + c3 * B>>

\* a configuration of a value the generator may refuse
BadTime(c) == c.tsset /\ (Lt(c.ts, Zero) \/ Lt(c.dmin, Zero) \/ Lt(c.dmax, c.dmin))
BadDist(c) == CASE c.dist = "range" -> Lt(c.hi, c.lo) \/ Lt(c.init.n, c.lo) \/ Lt(c.hi, c.init.n) \/ (c.cum /\ Lt(c.dhi, c.dlo))
                [] c.dist = "list" -> Len(c.opts) = 0
                [] OTHER -> FALSE
Invalid(c) == c.kind = "none" \/ BadTime(c) \/ BadDist(c)
\* No timestamp within the delta bounds may be left after the emission that is
\* due from value i: it then fails instead of being emitted.
NoRoom(from, dmin, dmax) ==
    LET room == Sub(Top, from)
        step == IF Lt(room, dmax) THEN room ELSE dmax
    IN Lt(Sub(room, step), dmin)
Again(i) == cfg[i].rep <= 0 \/ cnt[i] + 1 < cfg[i].rep
Overflow(i) == cnt[i] > 0 /\ last[i] # <<>> /\ ~BadTime(cfg[i]) /\ Again(i) /\ NoRoom(last[i], Sub(cfg[i].dmin, Zero), Sub(cfg[i].dmax, Zero))
\* the same before the first emission
Overflow0(i) == cnt[i] = 0 /\ cfg[i].tsset /\ ~BadTime(cfg[i]) /\ Again(i) /\ Lt(Sub(Top, cfg[i].ts), Sub(cfg[i].dmin, Zero))

InList(v, opts) == \E j \in DOMAIN opts : opts[j] = v
ValueOK(c, v, first) ==
    \/ Invalid(c)
    \/ c.kind \in {"delete", "sync"}
    \/ CASE c.dist = "range" -> Le(c.lo, v.n) /\ Le(v.n, c.hi)
         [] c.dist = "list" -> \/ first /\ v = c.init
                               \/ IF c.kind = "strings" THEN \A j \in DOMAIN v.l : \E k \in DOMAIN c.opts : c.opts[k].s = v.l[j]
                                  ELSE InList(v, c.opts)
         [] OTHER -> v = c.init

Reset == /\ E.e = "reset"
         /\ cfg' = <<>> /\ sync' = FALSE /\ cnt' = <<>> /\ last' = <<>> /\ prev' = <<>> /\ synced' = 0 /\ dead' = TRUE
Run == /\ E.e = "run"
       /\ cfg' = E.vals /\ sync' = E.sync
       /\ cnt' = [i \in DOMAIN E.vals |-> 0] /\ last' = [i \in DOMAIN E.vals |-> <<>>]
       /\ prev' = <<>> /\ synced' = 0 /\ dead' = FALSE

Emit == /\ E.e = "emit" /\ ~dead
        /\ LET i == E.i
               c == cfg[i]
               first == cnt[i] = 0
           IN
           /\ Judge(l, E.kind = c.kind, "emitted as " \o E.kind)
           /\ IF E.ts = <<>> THEN TRUE
              ELSE /\ Judge(l, prev = <<>> \/ Le(prev, E.ts), "timestamp goes back")
                   /\ IF first THEN Judge(l, ~c.tsset \/ E.ts = c.ts, "first timestamp is not the configured one")
                      ELSE IF Invalid(c) THEN TRUE
                      ELSE IF ~c.tsset THEN Judge(l, E.ts = last[i], "step outside its delta bounds")
                      ELSE Judge(l, Le(last[i], E.ts) /\ Le(Sub(c.dmin, Zero), Sub(E.ts, last[i])) /\ Le(Sub(E.ts, last[i]), Sub(c.dmax, Zero)),
                                 "step outside its delta bounds")
           /\ Judge(l, c.rep <= 0 \/ cnt[i] < c.rep, "emitted more than " \o ToString(c.rep) \o " times")
           /\ Judge(l, ValueOK(c, E.v, first), "value outside its range or options")
           /\ cnt' = [cnt EXCEPT ![i] = @ + 1]
           /\ last' = [last EXCEPT ![i] = E.ts]
           /\ prev' = IF E.ts = <<>> THEN prev ELSE E.ts
        /\ UNCHANGED <<cfg, sync, synced, dead>>

\* the injected marker
Marker == /\ E.e = "sync" /\ ~dead
          /\ Judge(l, sync /\ synced = 0, "unexpected sync marker")
          /\ Judge(l, \A i \in DOMAIN cfg : cnt[i] > 0, "sync marker before the first emission of every value")
          /\ Judge(l, E.ts = <<>> \/ prev = <<>> \/ Le(prev, E.ts), "timestamp goes back at the sync marker")
          /\ synced' = synced + 1
          /\ prev' = IF E.ts = <<>> THEN prev ELSE E.ts
          /\ UNCHANGED <<cfg, sync, cnt, last, dead>>

\* the generator is exhausted
End == /\ E.e = "end" /\ ~dead
       /\ Judge(l, \A i \in DOMAIN cfg : cfg[i].rep > 0 /\ cnt[i] = cfg[i].rep, "ended after " \o ToString(cnt) \o " emissions")
       /\ Judge(l, sync => synced = 1, "ended without the sync marker")
       /\ dead' = TRUE /\ UNCHANGED <<cfg, sync, cnt, last, prev, synced>>
\* it reports an error
Err == /\ E.e = "err" /\ ~dead
       /\ Judge(l, \E i \in DOMAIN cfg : Invalid(cfg[i]) \/ Overflow(i) \/ Overflow0(i), "error for a valid configuration")
       /\ dead' = TRUE /\ UNCHANGED <<cfg, sync, cnt, last, prev, synced>>
\* the stream ended without saying why: exhausted or an error
Over == /\ E.e = "over" /\ ~dead
        /\ Judge(l, \/ /\ \A i \in DOMAIN cfg : cfg[i].rep > 0 /\ cnt[i] = cfg[i].rep
                       /\ sync => synced = 1
                    \/ \E i \in DOMAIN cfg : Invalid(cfg[i]) \/ Overflow(i) \/ Overflow0(i),
                 "stream ended after " \o ToString(cnt) \o " emissions")
        /\ dead' = TRUE /\ UNCHANGED <<cfg, sync, cnt, last, prev, synced>>
\* the recording stops here
Cut == E.e = "cut" /\ UNCHANGED <<cfg, sync, cnt, last, prev, synced, dead>>

\* two generators of the same configuration and seed
Twin == /\ E.e = "twin"
        /\ Judge(l, E.a = E.b, "generators of the same configuration and seed differ")
        /\ UNCHANGED <<cfg, sync, cnt, last, prev, synced, dead>>

\* a fixed generator: everything once, in order, then the marker
Fixed == /\ E.e = "fixed"
         /\ Judge(l, E.r = E.want \o (IF E.sync THEN <<"sync">> ELSE <<>>), "fixed generator emitted " \o ToString(E.r))
         /\ UNCHANGED <<cfg, sync, cnt, last, prev, synced, dead>>

Panic == E.e \in {"panic", "stuck"} /\ Bad(l, E.e \o ": " \o E.msg) /\ UNCHANGED <<cfg, sync, cnt, last, prev, synced, dead>>
\* something that is no configured value
Alien == E.e = "alien" /\ Bad(l, "emitted something that is not configured") /\ UNCHANGED <<cfg, sync, cnt, last, prev, synced, dead>>
After == E.e \in {"emit", "sync"} /\ dead /\ Bad(l, "emission after the end") /\ UNCHANGED <<cfg, sync, cnt, last, prev, synced, dead>>

Init == l = 1 /\ cfg = <<>> /\ sync = FALSE /\ cnt = <<>> /\ last = <<>> /\ prev = <<>> /\ synced = 0 /\ dead = TRUE
Next == l <= Len(Trace) /\ l' = l + 1 /\
        (Reset \/ Run \/ Emit \/ Marker \/ End \/ Err \/ Over \/ Cut \/ Twin \/ Fixed \/ Panic \/ Alien \/ After)
Spec == Init /\ [][Next]_vars
Consumed == Finished(TLCGet("stats").diameter - 1)
=============================================================================
