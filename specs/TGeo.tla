-------------------------------- MODULE TGeo --------------------------------
(* Material at a point and along a straight path (gear::GearPointProperties, gear::GearDistanceProperties,
   gear::TGeoMaterialProperties and their loading by GearXML).
   A geometry is a tree of boxes: every node lies in its parent, siblings do not overlap. All answers are functions of the
   geometry and the question: what was asked before does not matter.
   A box with lo = hi on an axis is a layer too thin to count (thinner than the least step).
   Faces lie on even coordinates, questions start from odd ones, directions have integer components and an integer norm k:
   crossing parameters are integers S, the point being p + (S/D)*d with D the lcm of the components. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
VARIABLE geo, how, up      \* the geometry (<<>>: none), how it was loaded, whether it answers
vars == <<geo, how, up>>
Init == geo = <<>> /\ how = 0 /\ up = FALSE
Ops == {"load", "path", "point"}
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE (a \div Gcd(a, b)) * b
DOf(d) == Lcm(Abs(d[1]), Lcm(Abs(d[2]), Abs(d[3])))
NormOf(d) == CHOOSE k \in 1..20 : k * k = d[1] * d[1] + d[2] * d[2] + d[3] * d[3]
(* a*b/c, rounded down, without leaving 32 bits: a div c * b + (a mod c)*b div c *)
MD(a, b, c) == (a \div c) * b + ((a % c) * b) \div c
-----------------------------------------------------------------------------
Nodes == DOMAIN geo.n
RECURSIVE Depth(_)
Depth(i) == IF geo.n[i].par = 0 THEN 0 ELSE 1 + Depth(geo.n[i].par)
RECURSIVE Chain(_)
Chain(i) == IF i = 0 THEN <<>> ELSE <<i>> \o Chain(geo.n[i].par)
Holds(i, p) == \A j \in 1..3 : geo.n[i].lo[j] <= p[j] /\ p[j] <= geo.n[i].hi[j]
In(p) == {i \in Nodes : Holds(i, p)}
Deepest(S) == CHOOSE i \in S : \A k \in S : Depth(k) <= Depth(i)
Inside(p) == In(p) # {}
At(p) == Deepest(In(p))
-----------------------------------------------------------------------------
(* the interval of S in which the path p + (S/D)*d is in node i; empty: <<0, 0>> *)
Within(i, p, d, D, top) ==
  LET b(j) == LET x == (geo.n[i].lo[j] - p[j]) * (D \div d[j]) y == (geo.n[i].hi[j] - p[j]) * (D \div d[j]) IN <<IF x < y THEN x ELSE y, IF x < y THEN y ELSE x>>
      J == {j \in 1..3 : d[j] # 0}
      lo == Max({0} \cup {b(j)[1] : j \in J}) hi == Min({top} \cup {b(j)[2] : j \in J})
  IN IF lo >= hi \/ \E j \in 1..3 \ J : ~(geo.n[i].lo[j] < p[j] /\ p[j] < geo.n[i].hi[j]) THEN <<0, 0>> ELSE <<lo, hi>>
(* neighbouring pieces of the same node are one *)
RECURSIVE Joined(_)
Joined(s) == IF Len(s) < 2 THEN s ELSE LET t == Joined(Tail(s)) IN IF s[1][1] = t[1][1] /\ s[1][3] = t[1][2] THEN <<<<s[1][1], s[1][2], t[1][3]>>>> \o Tail(t) ELSE <<s[1]>> \o t
(* the pieces <<node, S1, S2>> of the path from p to p + n*d, in order; what is outside of the world is in no node *)
Pieces(p, d, n) ==
  LET D == DOf(d) R == [i \in Nodes |-> Within(i, p, d, D, n * D)]
      cuts == SetToSortSeq({R[i][1] : i \in Nodes} \cup {R[i][2] : i \in Nodes}, <)
      cover(a, b) == {i \in Nodes : R[i][1] <= a /\ b <= R[i][2] /\ R[i][1] < R[i][2]}
      raw == [k \in 1..(Len(cuts) - 1) |-> <<cover(cuts[k], cuts[k + 1]), cuts[k], cuts[k + 1]>>]
      ok == SelectSeq(raw, LAMBDA x : x[1] # {})
  IN Joined([k \in DOMAIN ok |-> <<Deepest(ok[k][1]), ok[k][2], ok[k][3]>>])
-----------------------------------------------------------------------------
TolL == 5
(* thickness of a piece in 1e-4, radiation lengths in 1e-6; the lengths of the materials are multiples of the scale *)
ThickOf(x, d) == MD((x[3] - x[2]) * NormOf(d) * geo.s, 10000, DOf(d))
Lengths(P, d, w) == LET D == DOf(d) k == NormOf(d)
  IN FoldFunction(LAMBDA x, y : x + y, 0, [i \in DOMAIN P |-> LET X == geo.m[geo.n[P[i][1]].mat][w] IN IF X = 0 THEN 0 ELSE MD((P[i][3] - P[i][2]) * k * (20 \div X), 1000000, 20 * D)])
MatName(i) == "M" \o ToString(geo.n[i].mat)
(* the lists observed: entries thinner than this are the touching of a face *)
Thin == 20
RECURSIVE Merged(_)
Merged(s) == IF Len(s) < 2 THEN s ELSE LET t == Merged(Tail(s)) IN IF s[1][1] = t[1][1] THEN <<<<s[1][1], s[1][2] + t[1][2]>>>> \o Tail(t) ELSE <<s[1]>> \o t
Lists(P, d, v) ==
  /\ Len(v.mats) = Len(v.thick) /\ Len(v.vols) = Len(v.thick)
  /\ \A i \in DOMAIN v.thick : v.thick[i] >= 0
  /\ \A i \in DOMAIN v.vols : \E k \in Nodes : v.vols[i] = geo.n[k].node /\ v.mats[i] = MatName(k)
  /\ LET seen == SelectSeq([i \in DOMAIN v.thick |-> <<<<v.vols[i], v.mats[i]>>, v.thick[i]>>], LAMBDA x : x[2] >= Thin)
         M == Merged(seen)
         \* neighbours of the same placement name and material cannot be told apart in the lists
         Q == Merged([i \in DOMAIN P |-> <<<<geo.n[P[i][1]].node, MatName(P[i][1])>>, ThickOf(P[i], d)>>])
     IN /\ Len(M) = Len(Q)
        /\ \A i \in DOMAIN Q : M[i][1] = Q[i][1] /\ Abs(M[i][2] - Q[i][2]) <= TolL * (1 + Len(P) - Len(Q))
Sums(P, d, v) == /\ ("rad" \in DOMAIN v => Abs(v.rad - Lengths(P, d, 4)) <= 12 * Len(P) + 3)
                 /\ ("int" \in DOMAIN v => Abs(v.int - Lengths(P, d, 5)) <= 12 * Len(P) + 3)
Nothing(v) == \A f \in DOMAIN v : IF f \in {"rad", "int"} THEN v[f] = 0 ELSE v[f] = <<>>
Asked(e, v) == DOMAIN v = {e.q[i] : i \in DOMAIN e.q}
PathOK(e) ==
  IF \E i \in DOMAIN e.q : e.q[i] \in {"BdL", "EdL"} THEN e.r.x = "NotImpl"
  ELSE IF e.n = 0 THEN (e.r.x = "ok" /\ Asked(e, e.r.v) /\ Nothing(e.r.v)) \/ (e.r.x = "Outside" /\ ~Inside(e.p))
  ELSE IF ~Inside(e.p) THEN e.r.x = "Outside"
  ELSE /\ e.r.x = "ok" /\ Asked(e, e.r.v)
       /\ LET P == Pieces(e.p, e.d, e.n) IN Lists(P, e.d, e.r.v) /\ Sums(P, e.d, e.r.v)
-----------------------------------------------------------------------------
Missing == {"cell", "B", "E", "region", "tracker", "calo"}
PointOK(e) ==
  IF e.q \in Missing THEN e.r.x = "NotImpl"
  ELSE IF ~Inside(e.p) THEN e.r.x = "Outside"
  ELSE /\ e.r.x = "ok"
       /\ LET i == At(e.p) n == geo.n[i] m == geo.m[n.mat] v == e.r.v c == Chain(i) IN
          CASE e.q = "name" -> v = MatName(i)
            [] e.q = "density" -> v = m[1] * 1000 [] e.q = "temp" -> v = m[2] * 1000 [] e.q = "press" -> v = m[3] * 1000
            [] e.q = "rad" -> v = m[4] * geo.s * 1000 [] e.q = "int" -> v = m[5] * geo.s * 1000
            [] e.q = "local" -> v = [j \in 1..3 |-> geo.s * 1000 * (e.p[j] - (n.lo[j] + n.hi[j]) \div 2)]
            [] e.q = "logical" -> v = [k \in DOMAIN c |-> geo.n[c[k]].vol]
            [] e.q = "physical" -> v = [k \in DOMAIN c |-> geo.n[c[k]].node]
-----------------------------------------------------------------------------
(* how: 0 through the factory, 1 from an XML file, 2 from an XML file without the plugin, 3 not initialised *)
Answers(e) == e.how \in {0, 1} /\ e.file = 1
Enabled(e) == e.op = "load" \/ up
LoadOK(e) == IF e.how = 3 \/ e.how = 2 THEN e.r.x = "ok" /\ e.r.v = <<0, 0>> ELSE IF e.file = 0 THEN e.r.x = "Parse" ELSE e.r.x = "ok" /\ e.r.v = <<1, 1>>
Do(e) == IF e.op = "load" THEN geo' = e.g /\ how' = e.how /\ up' = Answers(e) ELSE UNCHANGED vars
ResOK(e) == CASE e.op = "load" -> LoadOK(e) [] e.op = "path" -> PathOK(e) [] e.op = "point" -> PointOK(e)
=============================================================================
