----------------------------- MODULE CoalesceGen ----------------------------
(* All sequential histories up to MaxHist calls, printed for replay.        *)
EXTENDS Coalesce, TLC, Json
CONSTANTS Items, MaxHist
VARIABLES hist
Ops == {[op |-> "insert", it |-> x] : x \in Items} \cup {[op |-> "next", it |-> 0], [op |-> "close", it |-> 0], [op |-> "cancel", it |-> 0]}
Init == hist = <<>>
Next == /\ Len(hist) < MaxHist
        /\ \E o \in Ops : /\ (o.op # "cancel" \/ \A k \in DOMAIN hist : hist[k].op # "cancel")
                          /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = MaxHist => PrintT("@@HIST " \o ToJson(hist))
=============================================================================
