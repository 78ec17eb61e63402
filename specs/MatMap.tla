------------------------------- MODULE MatMap -------------------------------
(* Material maps: a grid over a box in Cartesian (x,y,z), cylindrical (r,phi,z) or spherical (r,theta,phi) coordinates holds
   the material between the vertex and each grid point, taken from the geometry when the map is made. In between, the
   values of the surrounding grid points count by the inverse of their distance (in the coordinates of the map). A factory
   makes a map once per request. Lengths, angles and material are in units of 1e-6.
   A request is g = <<xlo, xhi, nx, ylo, yhi, ny, zlo, zhi, nz>> and a coordinate system; no steps
   or an axis of a single value is one layer, at the lower end.
   The geometry is world = <<c1, c2>>, c = <<offset, x, y, z, |x|, |y|, |z|>> (slopes scaled by 1e6): material for radiation
   and interaction lengths to a point; none to the vertex itself. *)
EXTENDS Geo, FiniteSets, TLC
VARIABLES world, made, ref, fac
vars == <<world, made, ref, fac>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Cart == 0
Cyl == 1
Sph == 2
\* pi and 2 pi lie between 3141592 and 3141593, 6283185 and 6283186
InTurn(x) == x >= 0 /\ x <= 6283185
InHalf(x) == x >= 0 /\ x <= 3141592
Axis(g, i) == [lo |-> g[3 * i - 2], hi |-> g[3 * i - 1], n |-> g[3 * i]]
Layers(a) == IF a.hi = a.lo THEN 0 ELSE a.n          \* steps
BadGrid(g, coord) ==
  \/ \E i \in 1..3 : LET a == Axis(g, i) IN a.hi < a.lo \/ a.n < 0
  \/ coord \notin {Cart, Cyl, Sph}
  \/ coord # Cart /\ (g[1] < 0 \/ g[2] < 0)
  \/ coord = Cyl /\ ~(InTurn(g[4]) /\ InTurn(g[5]))
  \/ coord = Sph /\ ~(InHalf(g[4]) /\ InHalf(g[5]) /\ InTurn(g[7]) /\ InTurn(g[8]))
At(a, k) == IF Layers(a) = 0 THEN a.lo ELSE a.lo + Part(k, a.hi - a.lo, a.n)
Point(coord, q) == CASE coord = Cart -> q
                     [] coord = Cyl -> <<MulU(q[1], Cos(q[2])), MulU(q[1], Sin(q[2])), q[3]>>
                     [] OTHER -> LET s == MulU(q[1], Sin(q[2])) IN <<MulU(s, Cos(q[3])), MulU(s, Sin(q[3])), MulU(q[1], Cos(q[2]))>>
Material(c, p) == IF p = <<0, 0, 0>> THEN 0 ELSE c[1] + MulU(p[1], c[2]) + MulU(p[2], c[3]) + MulU(p[3], c[4]) + MulU(Abs(p[1]), c[5]) + MulU(Abs(p[2]), c[6]) + MulU(Abs(p[3]), c[7])
ValueAt(m, k, i) == Material(m.c[k], Point(m.coord, [j \in 1..3 |-> At(Axis(m.g, j), i[j])]))
------------------------------------------------------------------------------
On == 10                                             \* nearer than this to a grid value means on it
Outside(m, q) == \E j \in 1..3 : LET a == Axis(m.g, j) IN q[j] < a.lo - On \/ q[j] > a.hi + On
\* which grid values surround v on an axis: on a grid value there is a choice
Around(a, v) == LET n == Layers(a) IN
  IF n = 0 THEN {{0}}
  ELSE LET w == Clamp(v - a.lo, 0, a.hi - a.lo) t == (a.hi - a.lo) \div n k == Clamp(w \div Max2(t, 1), 0, n)
           N == {j \in {k - 1, k, k + 1} \cap 0..n : Near(At(a, j), v, On)}
           C == {j \in {k - 2, k - 1, k, k + 1} : j >= 0 /\ j < n /\ At(a, j) <= a.lo + w /\ a.lo + w <= At(a, j + 1)}
       IN {{j, j + 1} : j \in C} \cup (IF N = {} THEN {} ELSE LET j == CHOOSE x \in N : TRUE IN {S \in {{j - 1, j}, {j, j + 1}} : S \subseteq 0..n} \cup (IF j \in {0, n} THEN {{j}} ELSE {}))
OnGrid(m, q) == \A j \in 1..3 : LET a == Axis(m.g, j) IN \E S \in Around(a, q[j]) : \E i \in S : Near(At(a, i), q[j], On)
GridOf(m, q) == [j \in 1..3 |-> LET a == Axis(m.g, j) IN CHOOSE i \in UNION Around(a, q[j]) : Near(At(a, i), q[j], On)]
Corners(A, B, C) == {<<x, y, z>> : x \in A, y \in B, z \in C}
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET e == CHOOSE x \in S : TRUE IN f[e] + SumOf(f, S \ {e})
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Mean(m, k, q, S) ==
  LET d == [i \in S |-> Max2(1, LET e == [j \in 1..3 |-> q[j] - At(Axis(m.g, j), i[j])] IN Hypot(Hypot(e[1], e[2]), e[3]))]
      near == SetMin({d[i] : i \in S})
      v == [i \in S |-> ValueAt(m, k, i)] v0 == SetMin({v[i] : i \in S}) v1 == SetMax({v[i] : i \in S})
      w == [i \in S |-> DivU(near, d[i])]
      u == [i \in S |-> MulU(v[i] - v0, w[i])]
  IN [v |-> v0 + DivU(SumOf(u, S), SumOf(w, S)), lo |-> v0, hi |-> v1]
Reach(m) == IF m.coord = Cart THEN 0 ELSE m.g[2]
Tol(m, lo, hi) == 30 + Reach(m) \div (IF m.coord = Cyl THEN 100000 ELSE 60000) + (hi - lo) \div 400
AskOK(m, k, q, v) ==
  IF OnGrid(m, q) THEN LET t == ValueAt(m, k, GridOf(m, q)) IN Near(v, t, Tol(m, 0, 0))
  ELSE \E A \in Around(Axis(m.g, 1), q[1]), B \in Around(Axis(m.g, 2), q[2]), C \in Around(Axis(m.g, 3), q[3]) :
         LET r == Mean(m, k, q, Corners(A, B, C)) IN Near(v, r.v, Tol(m, r.lo, r.hi))
------------------------------------------------------------------------------
Ops == {"world", "make", "ask"}
Enabled(c) == c.op = "ask" => c.m \in DOMAIN ref
\* the limit a request moves by some 1e-10, if it does: too little to matter for the material, but another request
Moved(c) == IF "e" \in DOMAIN c THEN c.e ELSE <<0, 0>>
Key(c) == <<c.f, c.g, c.coord, Moved(c)>>
Known(c) == c.f # 0 /\ Key(c) \in DOMAIN fac
Refused(c) == ~Known(c) /\ (BadGrid(c.g, c.coord) \/ world = <<>>)
New(c) == [g |-> c.g, coord |-> c.coord, c |-> world]
Do(c) == CASE c.op = "world" -> world' = c.c /\ UNCHANGED <<made, ref, fac>>
           [] c.op = "make" -> IF Refused(c) THEN UNCHANGED vars
                               ELSE IF Known(c) THEN ref' = Put(ref, c.m, fac[Key(c)]) /\ UNCHANGED <<world, made, fac>>
                               ELSE /\ made' = Append(made, New(c)) /\ ref' = Put(ref, c.m, Len(made) + 1)
                                    /\ fac' = (IF c.f = 0 THEN fac ELSE Put(fac, Key(c), Len(made) + 1)) /\ UNCHANGED world
           [] OTHER -> UNCHANGED vars
ResOK(c) == CASE c.op = "world" -> c.r.x = "ok"
              [] c.op = "make" -> IF Refused(c) THEN (c.r.x = "Exception" /\ BadGrid(c.g, c.coord)) \/ (c.r.x = "Unknown" /\ world = <<>>)
                                  ELSE c.r.x = "ok" /\ c.r.v = (IF Known(c) THEN fac[Key(c)] ELSE Len(made) + 1) - 1
              [] OTHER -> LET m == made[ref[c.m]] IN
                          IF Outside(m, c.p) THEN c.r.x = "Exception"
                          ELSE c.r.x = "ok" /\ \A k \in 1..2 : AskOK(m, k, c.p, c.r.v[k])
Init == world = <<>> /\ made = <<>> /\ ref = [x \in {} |-> 0] /\ fac = [x \in {} |-> 0]
=============================================================================
