------------------------------ MODULE PipeGen -------------------------------
(* What a target and its subscribers may do, MaxHist steps, for replay.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxHist
VARIABLE hist
O(op, d, l, v) == [op |-> op, d |-> d, l |-> l, v |-> v]
Ops == {O("up", <<>>, l, v) : l \in {1, 2}, v \in {1, 2}}
       \cup {O("del", d, 0, 0) : d \in {<<1>>, <<2>>, <<1, 2>>}}
       \cup {O("up", <<1, 2>>, 1, 2), O("up", <<1>>, 1, 1), O("up", <<1>>, 2, 1)}
       \cup {O(x, <<>>, 0, 0) : x \in {"drop", "join", "rest"}}
Calm == {"drop", "join", "rest"}
Init == hist = <<>>
Next == /\ Len(hist) < MaxHist
        /\ \E o \in Ops : /\ hist = <<>> => o.op \in {"up", "join"}
                          /\ hist # <<>> => ~(o.op \in Calm /\ o.op = hist[Len(hist)].op)
                          /\ o.op = "drop" => \A i \in DOMAIN hist : hist[i].op # "drop"
                          /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = MaxHist => PrintT("@@HIST " \o ToJson(hist))
=============================================================================
