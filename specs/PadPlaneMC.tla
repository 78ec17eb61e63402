----------------------------- MODULE PadPlaneMC -----------------------------
(* all short histories of building, extending, repeating, copying, assigning and destroying a few small layouts *)
EXTENDS PadPlane, Json
CONSTANTS Ids, MaxOps, MaxRows
VARIABLE hist
News == {[k |-> "rect", a |-> <<-20000, 40000, 10000>>], [k |-> "vers", a |-> <<300000>>],
         [k |-> "fps", a |-> <<300000, 380000, 30000, 70000, 0, 1000, TwoPi>>], [k |-> "fps", a |-> <<300000, 380000, 40000, 50000, 1, 0, 2000000>>],
         [k |-> "fpa", a |-> <<100000, 180000, 2, -1000000, 500000, 3>>], [k |-> "fpa", a |-> <<100000, 180000, 1, -Pi, Pi, 4>>]}
RectRows == {<<1, 3, 15000, 10000, 0, 0, 0>>, <<2, 2, 20000, 10000, 15000, 5000, 15000>>, <<1, 4, 20000, 10000, 0, 0, 0>>, <<1, 1, 10000, 10000, 5000, 0, 0>>}
VersRows == {<<1, 3, 40000, 20000, 0, 0, 0>>, <<2, 2, 50000, 30000, 60000, 40000, 20000>>, <<1, 5, -1, 20000, -90000, 0, 0>>, <<1, 3, 40000, 20000, 0, 50000, 0>>}
Cmds == {[op |-> "new", id |-> i, k |-> n.k, a |-> n.a] : i \in Ids, n \in News}
        \cup {[op |-> "addrow", id |-> i, g |-> g] : i \in Ids, g \in RectRows \cup VersRows}
        \cup [op : {"repeat"}, id : Ids, n : {1, 2}] \cup [op : {"copy", "clone", "assign"}, id : Ids, from : Ids] \cup [op : {"del"}, id : Ids]
MEnabled(c) == CASE c.op = "new" -> c.id \notin DOMAIN ob
                 [] c.op \in {"copy", "clone"} -> c.id \notin DOMAIN ob /\ c.from \in DOMAIN ob
                 [] c.op = "addrow" -> c.id \in DOMAIN ob /\ ob[c.id].k = (IF c.g \in RectRows THEN "rect" ELSE "vers") /\ NRows(ob[c.id]) + c.g[1] <= MaxRows
                 [] c.op = "repeat" -> c.id \in DOMAIN ob /\ ob[c.id].k = "rect" /\ NRows(ob[c.id]) * c.n <= MaxRows
                 [] OTHER -> Enabled(c)
\* a step on one object leaves the others alone, a refused step changes nothing
Isolated(c) == /\ \A i \in DOMAIN ob : i # c.id => i \in DOMAIN ob' /\ ob'[i] = ob[i]
               /\ (Want(c) # "ok" => ob' = ob)
               /\ (c.op \in {"copy", "clone", "assign"} => ob'[c.id] = ob[c.from])
MInit == Init /\ hist = <<>>
MNext == \E c \in Cmds : MEnabled(c) /\ Do(c) /\ Assert(Isolated(c), "isolation") /\ hist' = Append(hist, c)
MView == ob
Bound == Len(hist) <= MaxOps
Emit == PrintT("HIST" \o ToJson(hist'))
MSpec == MInit /\ [][MNext]_<<ob, hist>>
=============================================================================
