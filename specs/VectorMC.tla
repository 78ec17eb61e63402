------------------------------ MODULE VectorMC ------------------------------
EXTENDS Vector, Json
CONSTANTS Ids, MaxOps, Comp
VARIABLE hist
CompSmall == {-1, 0, 2}
CompMore == {-3, 0, 2}
Vecs == {<<x, y, z>> : x \in Comp, y \in Comp, z \in Comp}
Cmds == {[op |-> "mk", id |-> i, how |-> "xyz", a |-> a] : i \in Ids, a \in Vecs}
        \cup [op : {"add", "sub", "cross"}, id : Ids, p : Ids, q : Ids] \cup [op : {"scale"}, id : Ids, s : {-2, 0, 3}, p : Ids] \cup [op : {"copy"}, id : Ids, p : Ids]
        \cup [op : {"set"}, id : Ids, i : {-1, 0, 1, 2, 3}, v : {-3, 5}]
        \cup [op : {"eq", "dot"}, p : Ids, q : Ids] \cup [op : {"mag", "conv", "print", "peek"}, id : Ids]
NCmds == {[op |-> "nmk", id |-> 1, k |-> k, a |-> a] : k \in {"v2"}, a \in {<<>>, <<4, -7>>}} \cup {[op |-> "nmk", id |-> 1, k |-> "v3", a |-> <<1, 2, 3>>], [op |-> "nmk", id |-> 2, k |-> "n5", a |-> <<>>]}
         \cup [op : {"nset"}, id : {1, 2}, i : {-1, 0, 1, 2, 3, 4, 5}, v : {9}] \cup [op : {"nget"}, id : {1, 2}, i : {-1, 0, 1, 2, 4, 5}] \cup {[op |-> "ncopy", id |-> 2, p |-> 1]}
Small(a) == \A k \in 1..3 : Abs(a[k]) <= 40
MInit == Init /\ hist = <<>>
MNext == \E c \in Cmds \cup NCmds : (c.op \in NOps => DOMAIN reg = {}) /\ (c.op \notin NOps => DOMAIN nd = {}) /\ Enabled(c) /\ Do(c) /\ (\A i \in DOMAIN reg' : Small(reg'[i])) /\ hist' = Append(hist, c)
MView == vars
Bound == Len(hist) <= MaxOps
Emit == PrintT("HIST" \o ToJson(hist'))
MSpec == MInit /\ [][MNext]_<<reg, nd, hist>>
=============================================================================
