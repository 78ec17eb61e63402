----------------------------- MODULE SurfaceMC ------------------------------
(* stores: all short histories of filling, refusing, copying; a few frames and boundaries for the laws *)
EXTENDS Surface, Json
CONSTANTS Stores, MaxOps, Lists
VARIABLE hist
Z3 == <<0, 0, 0>>
Surfs == <<[ID |-> 5, T |-> Z3, R |-> <<>>, k |-> "none", b |-> <<>>],
           [ID |-> -2, T |-> <<1000, 20000, -300000>>, R |-> <<<<3, 700000>>, <<1, -1200000>>>>, k |-> "rect", b |-> <<40000, 100000, 500, 300000>>],
           [ID |-> 5, T |-> <<-5000, 0, 100>>, R |-> <<<<2, HalfPi>>, <<3, 3000000>>, <<1, 100000>>>>, k |-> "trap", b |-> <<20000, 60000, 80000, 1000, -2000000>>],
           [ID |-> 0, T |-> <<7, 7, 7>>, R |-> <<<<1, Pi>>>>, k |-> "rect", b |-> <<1000, 1000, 100, 0>>]>>
ListsQuick == {<<>>, <<1>>, <<1, 3>>, <<2, 4>>, <<3, 2, 4>>, <<4, 2, 4>>}
ListsDeep == ListsQuick \cup {<<2, 1>>, <<3>>, <<4, 3, 1>>, <<1, 2, 4, 2>>}
Cmds == {[op |-> "store", t |-> t] : t \in Stores} \cup [op : {"dup"}, t : Stores, from : Stores]
        \cup {[op |-> "fill", t |-> t, name |-> n, l |-> l, fail |-> f] : t \in Stores, n \in {"one", "two"}, l \in Lists, f \in {0, 1}}
        \cup [op : {"look"}, t : Stores, ID : {5, -2, 0, 7}] \cup [op : {"filled", "name"}, t : Stores]
Head0 == [i \in 1..4 |-> [op |-> "surf", s |-> i] @@ Surfs[i]]
MInit == st = [x \in {} |-> 0] /\ sf = [i \in 1..4 |-> Surfs[i]] /\ hist = Head0
MEnabled(c) == Enabled(c) /\ (c.op \in {"store", "dup"} => c.t \notin DOMAIN st)
MNext == \E c \in Cmds : MEnabled(c) /\ Do(c) /\ hist' = Append(hist, c)
MView == st
Bound == Len(hist) <= MaxOps + 4
Emit == PrintT("HIST" \o ToJson(hist'))
MSpec == MInit /\ [][MNext]_<<vars, hist>>
=============================================================================
