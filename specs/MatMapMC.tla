------------------------------ MODULE MatMapMC ------------------------------
(* maps made directly and by two factories, for two geometries, questioned; laws of the maps at every state reached *)
EXTENDS MatMap, Json
CONSTANTS Names, MaxOps, Grids, Pts
VARIABLE hist
Worlds == {<<<<1000000, 200000, 0, -100000, 300000, 300000, 300000>>, <<500000, 0, 10000, 20000, 100000, 200000, 50000>>>>,
           <<<<0, 0, 0, 0, 300000, 200000, 100000>>, <<2000000, -50000, 40000, 30000, 60000, 70000, 80000>>>>}
GridsQuick == {<<<<-3000000, 6000000, 3, -2000000, 2000000, 2, 0, 0, 0>>, 0>>, <<<<0, 8000000, 2, 0, 6283185, 3, -1000000, 1000000, 1>>, 1>>,
               <<<<1000000, 9000000, 2, 0, 3141592, 2, 1000000, 5000000, 1>>, 2>>, <<<<0, 2000000, 2, 0, 2000000, 2, 0, 2000000, 2>>, 0>>,
               <<<<0, 2000000, 2, 0, 2000000, 2, 0, 2000000, 2>>, 1>>, <<<<0, 2000000, 0, 0, 0, 0, 0, 0, 0>>, 0>>, <<<<0, 2000000, 1, 0, 6283186, 2, 0, 0, 0>>, 1>>}
GridsDeep == GridsQuick \cup {<<<<0, 2000000, 2, 0, 2000000, 2, 0, 2000000, 2>>, 2>>, <<<<5000000, 5000000, 4, 1000000, 1000000, 0, 1000000, 1000000, 1>>, 1>>,
               <<<<2000000, 1000000, 2, 0, 0, 0, 0, 0, 0>>, 0>>, <<<<0, 1000000, 1, 0, 0, -1, 0, 0, 0>>, 0>>, <<<<0, 1000000, 1, 0, 0, 0, 0, 0, 0>>, 3>>, <<<<-1, 1000000, 1, 0, 0, 0, 0, 0, 0>>, 2>>}
PtsQuick == {<<0, 0, 0>>, <<1000000, 1000000, 1000000>>, <<6000000, 2000000, 0>>, <<1500000, 700000, 900000>>, <<0, 2000000, 300000>>, <<-3000100, 0, 0>>}
PtsDeep == PtsQuick \cup {<<5000000, 1000000, 1000000>>, <<4000000, 3141592, 999996>>, <<8000004, 4000000, -500000>>, <<3000000, -1000000, 0>>}
Cmds == {[op |-> "world", m |-> 0, c |-> w] : w \in Worlds} \cup {[op |-> "make", m |-> i, f |-> f, g |-> g[1], coord |-> g[2]] : i \in Names, f \in 0..2, g \in Grids}
        \cup [op : {"ask"}, m : Names, p : Pts]
MEnabled(c) == Enabled(c) /\ (c.op = "make" => c.m = 1 \/ 1 \in DOMAIN ref) /\ (c.op = "world" => c.c # world)
MInit == Init /\ hist = <<>>
MNext == Len(hist) < MaxOps /\ \E c \in Cmds : MEnabled(c) /\ Do(c) /\ hist' = Append(hist, c)
MView == vars
Emit == PrintT("HIST" \o ToJson(hist'))
MSpec == MInit /\ [][MNext]_<<vars, hist>>
------------------------------------------------------------------------------
Grid(m) == {<<x, y, z>> : x \in 0..Layers(Axis(m.g, 1)), y \in 0..Layers(Axis(m.g, 2)), z \in 0..Layers(Axis(m.g, 3))}
At3(m, i) == [j \in 1..3 |-> At(Axis(m.g, j), i[j])]
MapLaws(m) ==
  /\ \A i \in Grid(m) : OnGrid(m, At3(m, i)) /\ GridOf(m, At3(m, i)) = i /\ ~Outside(m, At3(m, i))     \* the grid is in the map
  /\ \A p \in Pts : Outside(m, p) \/ OnGrid(m, p) \/
       \A A \in Around(Axis(m.g, 1), p[1]), B \in Around(Axis(m.g, 2), p[2]), C \in Around(Axis(m.g, 3), p[3]) :
         LET S == Corners(A, B, C) r == Mean(m, 1, p, S) IN
         /\ S \subseteq Grid(m) /\ r.lo - 2 <= r.v /\ r.v <= r.hi + 2                                   \* a mean of what surrounds it
         /\ \A j \in 1..3 : \E i, k \in S : At3(m, i)[j] <= p[j] + On /\ p[j] - On <= At3(m, k)[j]
  /\ \A i \in Grid(m) : \A a \in 1..3 : i[a] < Layers(Axis(m.g, a)) =>                                 \* half way between two neighbours on an edge of the grid: their mean
       LET n == [i EXCEPT ![a] = @ + 1] r == Mean(m, 2, [j \in 1..3 |-> (At3(m, i)[j] + At3(m, n)[j]) \div 2], {i, n})
       IN Near(r.v, ValueAt(m, 2, i) + (ValueAt(m, 2, n) - ValueAt(m, 2, i)) \div 2, 5 + (r.hi - r.lo) \div 1000)
ASSUME \A w \in Worlds, g \in Grids : BadGrid(g[1], g[2]) \/ MapLaws([g |-> g[1], coord |-> g[2], c |-> w]) \/ Print(<<"law broken", w, g>>, FALSE)
Laws == /\ \A i \in DOMAIN made : ~BadGrid(made[i].g, made[i].coord)
        /\ \A k \in DOMAIN fac : LET m == made[fac[k]] IN m.g = k[2] /\ m.coord = k[3]
        /\ \A k, l \in DOMAIN fac : fac[k] = fac[l] => k = l
        /\ \A m \in DOMAIN ref : ref[m] \in DOMAIN made
=============================================================================
