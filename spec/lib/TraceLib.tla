------------------------------ MODULE TraceLib ------------------------------
(* Common machinery of the trace specifications.                            *)
(*                                                                          *)
(* A trace is a file of JSON lines recorded from the real code.  Every case *)
(* starts with a line [e |-> "reset", case |-> ...].  A trace specification *)
(* consumes one line per step.  Deterministic trace specifications judge    *)
(* every line: they print "@@BAD <line> <reason>" and go on from what was   *)
(* observed.  Non-deterministic ones simply have no step that consumes a    *)
(* wrong line; the highest line reached is then printed by Consumed.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Bad(l, why) == PrintT("@@BAD " \o ToString(l) \o " " \o why)

(* Judge(l, ok, why): always TRUE, complains when ~ok.                      *)
Judge(l, ok, why) == IF ok THEN TRUE ELSE Bad(l, why)

Has(r, f) == f \in DOMAIN r

NoDup(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j

ToSet(s) == {s[i] : i \in DOMAIN s}

(* Highest consumed line, for traces with silent steps (-workers 1). *)
Mark(l) == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE

Finished(n) == PrintT("@@CONSUMED " \o ToString(n) \o " " \o ToString(Len(Trace)))
=============================================================================
