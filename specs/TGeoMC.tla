------------------------------ MODULE TGeoMC -------------------------------
(* geometries loaded in all ways and questioned in every order; laws of paths and points *)
EXTENDS TGeo, Json
CONSTANTS MaxOps, Deep
VARIABLE hist
Box(par, lo, hi, mat, st, nm) == [par |-> par, lo |-> lo, hi |-> hi, mat |-> mat, st |-> st, node |-> nm, vol |-> "v" \o nm]
Mats == <<<<1, 20, 3, 2, 5>>, <<7, 290, 1, 1, 0>>, <<3, 4, 0, 10, 4>>>>
World == Box(0, <<-8, -8, -8>>, <<8, 8, 8>>, 1, 0, "world_1")
Geos == {[s |-> 1, m |-> Mats, n |-> <<World, Box(1, <<0, -4, -4>>, <<4, 4, 4>>, 2, 1, "a"), Box(1, <<4, -8, -8>>, <<6, 8, 8>>, 3, 0, "b"), Box(2, <<0, 0, 0>>, <<2, 2, 2>>, 3, 0, "c")>>],
         [s |-> 50, m |-> Mats, n |-> <<World, Box(1, <<-2, -2, -2>>, <<2, 2, 2>>, 2, 0, "a"), Box(1, <<2, -2, -2>>, <<4, 2, 2>>, 2, 1, "b")>>]}
Dirs == {<<1, 0, 0>>, <<0, -1, 0>>, <<3, 4, 0>>, <<-2, 1, 2>>} \cup IF Deep THEN {<<2, 3, 6>>, <<0, -3, 4>>, <<-4, -4, -7>>} ELSE {}
Starts == {<<1, 1, 1>>, <<-1, 3, 1>>, <<7, -7, 5>>, <<9, 1, 1>>} \cup IF Deep THEN {<<-7, -7, -7>>, <<5, 1, -1>>} ELSE {}
Ns == {0, 1, 3, 9}
Plus(p, d, n) == [j \in 1..3 |-> p[j] + n * d[j]]
Full == <<"thick", "rad", "mats", "vols", "int">>
Cmds == {[op |-> "load", g |-> g, how |-> h, file |-> f] : g \in Geos, h \in 0..3, f \in {0, 1}}
        \cup {[op |-> "path", h |-> i, p |-> p, d |-> d, n |-> n, b |-> Plus(p, d, n), q |-> q] : i \in {1}, p \in Starts, d \in Dirs, n \in Ns, q \in {Full}}
        \cup {[op |-> "point", h |-> 1, p |-> p, q |-> q] : p \in Starts, q \in {"name", "local", "physical"}}
Loads == {"load"}
MEnabled(c) == /\ Enabled(c)
               /\ c.op = "load" => \/ hist = <<>>
                                   \/ c.how = 0 /\ c.file = 1 /\ ~up
               /\ c.op # "load" => Len(hist) <= 3
MInit == Init /\ hist = <<>>
Kind(c) == c.op
MNext == Len(hist) < MaxOps /\ \E c \in Cmds : MEnabled(c) /\ Do(c) /\ hist' = Append(hist, c)
(* all pairs of questions after a load: what was asked before is part of the state explored, though no answer depends on it *)
Prev == IF hist = <<>> THEN <<>> ELSE IF hist[Len(hist)].op = "load" THEN <<>> ELSE <<hist[Len(hist)]>>
MView == <<vars, Prev>>
Emit == PrintT("HIST" \o ToJson(hist'))
MSpec == MInit /\ [][MNext]_<<vars, hist>>
-----------------------------------------------------------------------------
Sum(P) == FoldFunction(LAMBDA x, y : x + y, 0, [i \in DOMAIN P |-> P[i][3] - P[i][2]])
InPiece(x, p, d) == LET D == DOf(d) m == x[2] + x[3] q == [j \in 1..3 |-> 2 * D * p[j] + m * d[j]]    \* its middle, in 2D
                    IN LET in == {i \in Nodes : \A j \in 1..3 : 2 * D * geo.n[i].lo[j] <= q[j] /\ q[j] <= 2 * D * geo.n[i].hi[j]} IN in # {} /\ Deepest(in) = x[1]
Laws ==
  geo # <<>> /\ Len(hist) = 1 =>
  /\ \A i \in Nodes : geo.n[i].par # 0 => \A j \in 1..3 : geo.n[geo.n[i].par].lo[j] <= geo.n[i].lo[j] /\ geo.n[i].hi[j] <= geo.n[geo.n[i].par].hi[j]
  /\ \A p \in Starts, d \in Dirs, n \in Ns \ {0} : Inside(p) =>
     LET P == Pieces(p, d, n) D == DOf(d) e == Plus(p, d, n) IN
     /\ P # <<>> /\ P[1][1] = At(p) /\ P[1][2] = 0                                                       \* it starts where it starts
     /\ \A i \in 2..Len(P) : P[i][2] = P[i - 1][3] /\ P[i][1] # P[i - 1][1]                                \* without gaps
     /\ \A i \in DOMAIN P : P[i][2] < P[i][3] /\ InPiece(P[i], p, d)                                       \* each piece in its volume
     /\ Sum(P) <= n * D /\ (Inside(e) => Sum(P) = n * D)                                                   \* nothing lost within the world
     /\ (Inside(e) => LET B == Pieces(e, [j \in 1..3 |-> -d[j]], n) IN                                      \* the way back is the same way
            Len(B) = Len(P) /\ \A i \in DOMAIN P : B[Len(P) + 1 - i] = <<P[i][1], n * D - P[i][3], n * D - P[i][2]>>)
     /\ \A m \in 1..(n - 1) : Inside(Plus(p, d, m)) =>                                                      \* one stretch after the other
            Joined(Pieces(p, d, m) \o [i \in DOMAIN Pieces(Plus(p, d, m), d, n - m) |-> LET x == Pieces(Plus(p, d, m), d, n - m)[i] IN <<x[1], x[2] + m * D, x[3] + m * D>>]) = P
ASSUME \A x \in {<<100, 10000, 7>>, <<3920, 10000, 28>>, <<5, 3, 2>>} : MD(x[1], x[2], x[3]) = (x[1] * x[2]) \div x[3]
=============================================================================
