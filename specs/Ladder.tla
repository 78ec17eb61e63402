------------------------------- MODULE Ladder -------------------------------
(* Ladder detectors: layers of flat boxes. Layer: n ladders, azimuth phi0 of the first one's normal, and for the ladders (L) and
   their sensitive parts (S) <<distance, offset, thickness, half length, width>>. Ladder m of a layer has its normal at
   phi0 + 2 pi m / n; its box reaches from distance to distance + thickness along the normal, is shifted by offset in the direction of
   increasing phi and exists on both sides of the gap around z = 0. Units: Geo. *)
EXTENDS Geo, FiniteSets, TLC
VARIABLE det
vars == <<det>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
------------------------------------------------------------------------------
\* every box, with the sine and cosine of its azimuth
Azim(l, m) == l.phi0 + Part(m, TwoPi, l.n)
Boxes(d, s) == {LET l == d.ls[i] b == IF s = 1 THEN l.S ELSE l.L a == Azim(l, m)
                IN [c |-> Cos(a), s |-> Sin(a), d |-> b[1], o |-> b[2], t |-> b[3], len |-> b[4], w |-> b[5], layer |-> i - 1, m |-> m, g |-> d.gap \div 2]
                : <<i, m>> \in {<<i, m>> \in (1..Len(d.ls)) \X (0..40) : m < d.ls[i].n}}
\* coordinates in a box: along the thickness, in the plane, beyond the gap
In1(b, x, y) == MulU(x, b.c) + MulU(y, b.s) - b.d
In2(b, x, y) == MulU(y, b.c) - MulU(x, b.s) - b.o
InCoord(b, p) == <<In1(b, p[1], p[2]), In2(b, p[1], p[2]), Abs(p[3]) - b.g>>
Lo(b) == <<0, -(b.w \div 2), 0>>
Hi(b) == <<b.t, b.w \div 2, b.len>>
Tol == 12
\* 1 inside, -1 outside, 0 undecided
Where(b, q) == LET S(v, lo, hi, t) == IF v >= lo + t /\ v <= hi - t THEN 1 ELSE IF v >= lo - t /\ v <= hi + t THEN 0 ELSE -1
               IN Min2(S(q[1], 0, b.t, Tol), Min2(S(q[2], -(b.w \div 2), b.w \div 2, Tol), S(q[3], 0, b.len, IF b.g = 0 /\ q[3] < b.len - 3 THEN 0 ELSE 3)))
Out(v, lo, hi) == IF v < lo THEN lo - v ELSE IF v > hi THEN v - hi ELSE 0
BoxDist3(b, q) == Hypot(Hypot(Out(q[1], 0, b.t), Out(q[2], -(b.w \div 2), b.w \div 2)), Out(q[3], 0, b.len))
WhereAny(d, s, p) == LET W == {Where(b, InCoord(b, p)) : b \in Boxes(d, s)} IN IF 1 \in W THEN 1 ELSE IF 0 \in W THEN 0 ELSE -1
IdOK(d, p, v) ==
  LET B == Boxes(d, 1) may == {b \in B : Where(b, InCoord(b, p)) >= 0} sure == \E b \in may : Where(b, InCoord(b, p)) = 1
  IN IF v[1] = 0 THEN ~sure /\ v = <<0, -77, -77, -77, -77>>
     ELSE v[1] = 1 /\ \E b \in may : v = <<1, b.layer, IF p[3] >= 0 THEN 1 ELSE -1, b.m, 0>>
Dot3(v) == Hypot(Hypot(v[1], v[2]), v[3])
\* v leads to a point of a volume, and none is closer
DistOK(d, s, p, v) ==
  LET B == Boxes(d, s) D == {BoxDist3(b, InCoord(b, p)) : b \in B} m == SetMin(D) e == <<p[1] + v[1], p[2] + v[2], p[3] + v[3]>>
  IN IF B = {} THEN v = <<0, 0, 0>>
     ELSE /\ \A i \in 1..3 : ~Bad(v[i])
          /\ \E b \in B : BoxDist3(b, InCoord(b, e)) <= 2 * Tol
          /\ Dot3(v) <= m + 2 * Tol + m \div 10000
          /\ (WhereAny(d, s, p) = 1 => v = <<0, 0, 0>>)
------------------------------------------------------------------------------
\* the track p + t v / 1e6; v reaches beyond the detector. Range of t in which it is within lo..hi in one coordinate
Full == 1000000
\* when it is at x
T(p, v, x) == IF Abs(v) <= 2 \/ Abs(x - p) > 2 * Abs(v) THEN (IF (x - p > 0) = (v > 0) THEN 2 * Full ELSE -2 * Full)
              ELSE LET q == DivU(Abs(x - p), Abs(v)) IN IF (x - p >= 0) = (v > 0) THEN q ELSE -q
Span(p, v, lo, hi) == IF lo > hi THEN <<1, 0>> ELSE IF Abs(v) <= 2 THEN (IF p >= lo /\ p <= hi THEN <<0, Full>> ELSE <<1, 0>>)
   ELSE LET a == T(p, v, lo) c == T(p, v, hi) IN <<Max2(0, Min2(a, c)), Min2(Full, Max2(a, c))>>
\* in the box on one side (1: z > 0, -1: z < 0), shrunk by e on all sides (grown, if negative)
Within(b, side, p, e) == LET x == In1(b, p[1], p[2]) y == In2(b, p[1], p[2]) z == side * p[3] - b.g
                         IN x >= e /\ x <= b.t - e /\ Abs(y) <= b.w \div 2 - e /\ z >= e /\ z <= b.len - e
BigV(v) == Max2(Abs(v[1]), Max2(Abs(v[2]), Abs(v[3])))
\* the track crosses one of the six faces ahead of its start, clear of the edges: latest t at which it has done so, or Full + 1
Bound1(b, side, p, v, e) ==
  LET q == <<In1(b, p[1], p[2]), In2(b, p[1], p[2]), side * p[3] - b.g>> w == <<In1(b, v[1], v[2]) + b.d, In2(b, v[1], v[2]) + b.o, side * v[3]>>
      lo == Lo(b) hi == Hi(b) S == [k \in 1..3 |-> Span(q[k], w[k], lo[k] + e, hi[k] - e)]
      Window(k, c) == LET x == T(q[k], w[k], c - e) y == T(q[k], w[k], c + e) IN <<Min2(x, y), Max2(x, y)>>
      Clean(k, c) == LET x == Window(k, c) IN Abs(w[k]) > 2 /\ x[1] > 3 /\ x[2] < Full - 3 /\ \A j \in (1..3) \ {k} : S[j][1] + 2 < x[1]
      Stays(k, c) == LET x == Window(k, c) IN \A j \in (1..3) \ {k} : S[j][2] > x[2] + 2
  IN SetMin({Full + 1} \cup {Window(f[1], f[2])[2] : f \in {f \in {<<k, lo[k]>> : k \in 1..3} \cup {<<k, hi[k]>> : k \in 1..3} : Clean(f[1], f[2]) /\ Stays(f[1], f[2])}})
Latest(d, s, p, v, e) == SetMin({Full + 1} \cup {Bound1(b, side, p, v, e) : b \in Boxes(d, s), side \in {1, -1}})
OnSurface(b, side, q, e) == Within(b, side, q, -e) /\ ~Within(b, side, q, e)
\* position of q along the track
TimeOf(p, v, q) == LET k == CHOOSE k \in 1..3 : Abs(v[k]) = BigV(v) x == q[k] - p[k] IN IF Abs(x) > Abs(v[k]) THEN 2 * Full ELSE LET a == DivU(Abs(x), Abs(v[k])) IN IF (x >= 0) = (v[k] > 0) THEN a ELSE -a
TrackTol(v) == 14 + BigV(v) \div 250000
TrackOK(d, s, p, v, q) ==
  LET e == TrackTol(v) last == Latest(d, s, p, v, e) slack == 3 + DivU(e, BigV(v)) IN
  IF q = <<0, 0, 0>> THEN last > Full
  ELSE LET t == TimeOf(p, v, q) IN
       /\ \A i \in 1..3 : ~Bad(q[i]) /\ Near(q[i], p[i] + MulU(v[i], t), e)
       /\ t >= -slack /\ t <= last + slack
       /\ \E b \in Boxes(d, s), side \in {1, -1} : OnSurface(b, side, q, e)
------------------------------------------------------------------------------
BoolOK(w, v) == w = 0 \/ v = (w = 1)
Ops == {"new", "copy", "layer", "get", "in", "id", "dist", "track"}
Enabled(c) == CASE c.op = "new" -> TRUE [] c.op = "copy" -> c.from \in DOMAIN det [] OTHER -> c.d \in DOMAIN det
Do(c) == det' = (CASE c.op = "new" -> Put(det, c.d, [half |-> c.half, gap |-> c.gap, ls |-> <<>>])
                   [] c.op = "copy" -> Put(det, c.d, det[c.from])
                   [] c.op = "layer" -> [det EXCEPT ![c.d].ls = Append(@, [n |-> c.n, phi0 |-> c.phi0, L |-> c.L, S |-> c.S])]
                   [] OTHER -> det)
Seq5(a, b) == Len(a) = 5 /\ \A i \in 1..5 : Near(a[i], b[i], 1)
ResOK(c) == c.r.x = "ok" /\ LET d == det[c.d] v == c.r.v IN
  CASE c.op \in {"new", "copy", "layer"} -> TRUE
    [] c.op = "get" -> Len(v) = Len(d.ls) /\ \A i \in 1..Len(v) : v[i][1] = d.ls[i].n /\ Near(v[i][2], d.ls[i].phi0, 1) /\ Seq5(v[i][3], d.ls[i].L) /\ Seq5(v[i][4], d.ls[i].S)
    [] c.op = "in" -> BoolOK(WhereAny(d, c.s, c.p), v)
    [] c.op = "id" -> IdOK(d, c.p, v)
    [] c.op = "dist" -> DistOK(d, c.s, c.p, v)
    [] c.op = "track" -> TrackOK(d, c.s, c.p, c.v, v)
Init == det = [x \in {} |-> 0]
=============================================================================
