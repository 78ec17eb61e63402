------------------------------ MODULE LadderMC ------------------------------
(* small detectors built layer by layer, copied and questioned; laws of the geometry at every state reached *)
EXTENDS Ladder, Json
CONSTANTS Dets, MaxOps, Layers, Pts
VARIABLE hist
\* n, phi0, ladder box, sensitive box
Lay(n, phi0, l, s) == [n |-> n, phi0 |-> phi0, L |-> l, S |-> s]
LayersQuick == {Lay(1, 0, <<150000, 0, 3000, 500000, 120000>>, <<150500, 0, 1000, 400000, 100000>>),
                Lay(5, 700000, <<160000, -30000, 20000, 500000, 200000>>, <<161000, 30000, 1000, 500000, 80000>>),
                Lay(12, -2000000, <<200000, 80000, 5000, 300000, 110000>>, <<201000, 70000, 1000, 100000, 60000>>)}
LayersDeep == LayersQuick \cup {Lay(2, Pi, <<100000, 0, 10000, 500000, 300000>>, <<300000, -20000, 10000, 500000, 60000>>),
                Lay(3, 5500000, <<120000, 0, 10000, 500000, 60000>>, <<120000, 0, 10000, 500000, 60000>>),
                Lay(8, HalfPi, <<300000, 40000, 10000, 500000, 340000>>, <<304000, 40000, 3000, 490000, 330000>>)}
PtsQuick == {<<0, 0, 0>>, <<150700, 1000, 30000>>, <<-60000, 140000, -250000>>, <<0, -205000, 90000>>, <<180000, -90000, -700000>>}
PtsDeep == PtsQuick \cup {<<-305000, 0, 1000>>, <<200, -100, 520000>>, <<310000, 310000, 0>>}
Vs == {<<1500000, 100000, 300000>>, <<0, -1500000, -200000>>, <<-900000, 1400000, -1300000>>}
Lays(i) == {[op |-> "layer", d |-> i] @@ l : l \in Layers}
Cmds == {[op |-> "new", d |-> i, half |-> h, gap |-> g] : i \in Dets, h \in {0, 500000}, g \in {0, 4000}}
        \cup [op : {"copy"}, d : Dets, from : Dets] \cup UNION {Lays(i) : i \in Dets} \cup [op : {"get"}, d : Dets]
        \cup [op : {"in", "dist"}, d : Dets, s : {0, 1}, p : Pts] \cup [op : {"id"}, d : Dets, s : {1}, p : Pts]
        \cup [op : {"track"}, d : Dets, s : {0, 1}, p : Pts, v : Vs, k : {1000}]
MEnabled(c) == Enabled(c) /\ (c.op = "layer" => Len(det[c.d].ls) < 2) /\ (c.op = "copy" => c.from # c.d /\ c.d \notin DOMAIN det) /\ (c.op = "new" => c.d \notin DOMAIN det)
MInit == Init /\ hist = <<>>
MNext == \E c \in Cmds : MEnabled(c) /\ Do(c) /\ hist' = Append(hist, c)
MView == det
Bound == Len(hist) <= MaxOps
Emit == PrintT("HIST" \o ToJson(hist'))
MSpec == MInit /\ [][MNext]_<<vars, hist>>
------------------------------------------------------------------------------
Dist(d, s, p) == SetMin({BoxDist3(b, InCoord(b, p)) : b \in Boxes(d, s)})
Rot(p, a) == <<MulU(p[1], Cos(a)) - MulU(p[2], Sin(a)), MulU(p[1], Sin(a)) + MulU(p[2], Cos(a)), p[3]>>
Agree(a, b) == a = b \/ a = 0 \/ b = 0
Q == Pts \cup {<<p[1] + 40000, p[2] - 90000, p[3]>> : p \in Pts}
LawsOf(d, s) ==
  /\ \A p \in Q : LET t == Dist(d, s, p) IN
       /\ (WhereAny(d, s, p) = 1 => t = 0) /\ (WhereAny(d, s, p) = -1 => t > 0)                                   \* inside is distance zero
       /\ LET m == <<p[1], p[2], -p[3]>> IN Dist(d, s, m) = t /\ WhereAny(d, s, m) = WhereAny(d, s, p)             \* both sides are alike
       /\ \A e \in Vs : LET q == <<p[1] + e[1] \div 10, p[2] + e[2] \div 10, p[3] + e[3] \div 10>>                 \* the distance is 1-Lipschitz
                        IN Abs(Dist(d, s, q) - t) <= Dot3(<<q[1] - p[1], q[2] - p[2], q[3] - p[3]>>) + 150
       /\ \A e \in Vs : LET last == Latest(d, s, p, e, TrackTol(e)) IN                                             \* what a track must meet is on its way
            last <= Full => LET q == [i \in 1..3 |-> p[i] + MulU(e[i], last)] IN \E b \in Boxes(d, s), side \in {1, -1} : Within(b, side, q, -2 * TrackTol(e))
  /\ Len(d.ls) = 1 => \A p \in Q : LET a == Part(1, TwoPi, d.ls[1].n) r == Rot(p, a) IN                           \* a layer has the symmetry of its ladder count
       Agree(WhereAny(d, s, p), WhereAny(d, s, r)) /\ Near(Dist(d, s, p), Dist(d, s, r), 150)
  /\ \A i \in 1..Len(d.ls) : \A p \in Q : Dist([d EXCEPT !.ls = <<@[i]>>], s, p) >= Dist(d, s, p)                   \* more layers, shorter way
Laws == \A i \in DOMAIN det : det[i].ls # <<>> => \A s \in {0, 1} : LawsOf(det[i], s)
=============================================================================
