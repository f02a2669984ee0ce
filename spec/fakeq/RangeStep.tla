----------------------------- MODULE RangeStep ------------------------------
(* One step of an integer value, in W-bit two's complement arithmetic: a    *)
(* number drawn from the range, or the value moved by a delta, is clamped   *)
(* to the range.  Sums wrap.  Drawing is defined for every range; the       *)
(* standard library's Int63n only for less than half the numbers.           *)
EXTENDS Integers
CONSTANTS W, Broken \* "", "int63n", "noclamp", "clamplow"
VARIABLES kind, min, max, val, lo, hi, cum, res
vars == <<kind, min, max, val, lo, hi, cum, res>>
M == 2 ^ W
IMax == 2 ^ (W - 1) - 1
IMin == -(2 ^ (W - 1))
Wrap(x) == LET y == x % M IN IF y > IMax THEN y - M ELSE y
WrapU(x) == x % M
Ints == IMin..IMax
Uints == 0..M - 1

\* ranges that can be drawn from
Drawable(a, b) == Broken # "int63n" \/ (Wrap(Wrap(b - a) + 1) > 0)

Init == /\ kind \in {"int", "uint"}
        /\ min \in (IF kind = "int" THEN Ints ELSE Uints) /\ max \in (IF kind = "int" THEN Ints ELSE Uints)
        /\ min <= max /\ val \in min..max
        /\ cum \in BOOLEAN
        /\ IF cum THEN lo \in Ints /\ hi \in Ints /\ lo <= hi ELSE lo = 0 /\ hi = 0
        /\ res = "todo"

Clamp(x) == IF Broken = "noclamp" THEN x
            ELSE IF x > max THEN max ELSE IF x < min /\ Broken # "clamplow" THEN min ELSE x
Step == /\ res = "todo"
        /\ \/ /\ ~cum /\ Drawable(min, max) /\ \E x \in min..max : val' = Clamp(x)
              /\ res' = "ok"
           \/ /\ cum /\ kind = "int" /\ Drawable(lo, hi) /\ \E d \in lo..hi : val' = Clamp(Wrap(val + d))
              /\ res' = "ok"
           \/ /\ cum /\ kind = "uint" /\ Drawable(lo, hi)
              /\ \E d \in lo..hi : LET x == Wrap(Wrap(val) + d) IN val' = Clamp(IF x < 0 THEN min ELSE x)
              /\ res' = "ok"
           \/ /\ IF cum THEN ~Drawable(lo, hi) ELSE ~Drawable(min, max)
              /\ res' = "panic" /\ val' = val
        /\ UNCHANGED <<kind, min, max, lo, hi, cum>>
Spec == Init /\ [][Step]_vars
InRange == val \in min..max
NoPanic == res # "panic"
=============================================================================
