------------------------------- MODULE Vector -------------------------------
(* Three-vectors. Registers hold vectors with whole components (in units of a power of two chosen per history, which the
   model need not know); what is exact in the code is exact here. Angles in micro-radians, cylindrical and spherical
   read-out with the fixed-point functions of Geo. *)
EXTENDS Geo, FiniteSets, TLC
VARIABLES reg, nd      \* three-vectors; plain vectors of 2, 3 or 5 components (Vector2D and its relatives)
vars == <<reg, nd>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Times(s, a) == <<s * a[1], s * a[2], s * a[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Makers == {"mk", "add", "sub", "cross", "scale", "copy"}
Queries == {"unit", "get", "peek", "eq", "dot", "mag", "conv", "print", "cyl", "sph", "turn"}
NOps == {"nmk", "nset", "nget", "ncopy"}
Dim == [v2 |-> 2, v3 |-> 3, n5 |-> 5]
Ops == Makers \cup Queries \cup {"set"} \cup NOps
Made(c) == CASE c.op = "mk" -> IF c.how = "zero" THEN <<0, 0, 0>> ELSE c.a
             [] c.op = "add" -> Plus(reg[c.p], reg[c.q])
             [] c.op = "sub" -> Minus(reg[c.p], reg[c.q])
             [] c.op = "cross" -> Cross(reg[c.p], reg[c.q])
             [] c.op = "scale" -> Times(c.s, reg[c.p])
             [] c.op = "copy" -> reg[c.p]
             \* an index out of range alters nothing
             [] c.op = "set" -> IF c.i \in 0..2 THEN [reg[c.id] EXCEPT ![c.i + 1] = c.v] ELSE reg[c.id]
Uses(c) == CASE c.op \in {"mk", "unit", "cyl", "sph", "turn"} -> {} [] c.op \in {"scale", "copy"} -> {c.p} [] c.op \in {"add", "sub", "cross", "eq", "dot"} -> {c.p, c.q} [] OTHER -> {c.id}
NUses(c) == CASE c.op = "nmk" -> {} [] c.op = "ncopy" -> {c.p} [] OTHER -> {c.id}
Enabled(c) == IF c.op \in NOps THEN \A i \in NUses(c) : i \in DOMAIN nd ELSE Uses(c) \subseteq DOMAIN reg
\* unlike three-vectors, these refuse an index out of range
NIn(c) == c.i + 1 \in DOMAIN nd[c.id].a
NMade(c) == CASE c.op = "nmk" -> [k |-> c.k, a |-> IF c.a = <<>> THEN [i \in 1..Dim[c.k] |-> 0] ELSE c.a]
              [] c.op = "ncopy" -> nd[c.p]
              [] c.op = "nset" -> IF NIn(c) THEN [nd[c.id] EXCEPT !.a[c.i + 1] = c.v] ELSE nd[c.id]
NResOK(c) == CASE c.op = "nget" -> IF NIn(c) THEN c.r.x = "ok" /\ c.r.v = <<nd[c.id].a[c.i + 1], nd[c.id].a[c.i + 1]>> ELSE c.r.x = "std"
               [] c.op = "nset" /\ ~NIn(c) -> c.r.x = "std"
               [] OTHER -> c.r.x = "ok" /\ c.r.v = NMade(c).a
Do(c) == IF c.op \in NOps THEN reg' = reg /\ nd' = IF c.op = "nget" THEN nd ELSE Put(nd, c.id, NMade(c)) ELSE nd' = nd /\ reg' = IF c.op \in Makers \cup {"set"} THEN Put(reg, c.id, Made(c)) ELSE reg
------------------------------------------------------------------------------
\* read through every accessor
Show(a) == a \o a \o a \o a
\* R / 1000 is the root of n
RootOK(R, n) == LET q == R \div 1000 f == R % 1000 IN
                R >= 0 /\ ~Bad(R) /\ q < 46000 /\ Abs(n - q * q) <= 2 * q + 2 /\ Abs((n - q * q) * 1000 - 2 * q * f - (f * f) \div 1000) <= 2 * q + 3
\* u = w cos(a), v = w sin(a), for lengths w in ticks; zero for the zero vector
PolarOK(u, v, w, a) == LET t == w \div 300000 + 4 IN
    /\ ~Bad(a) /\ Abs(a) <= Pi + 1
    /\ Near(MulU(w, Cos(a)), u, t) /\ Near(MulU(w, Sin(a)), v, t)
MagOK(a, v) == LET xy == a[1] * a[1] + a[2] * a[2] r2 == xy + a[3] * a[3] IN
    /\ v[1] = r2 /\ v[2] = xy /\ RootOK(v[3], r2) /\ RootOK(v[4], xy) /\ v[5] = v[4]
    /\ (xy = 0 => v[6] = 0) /\ (r2 = 0 => v[7] = 0)
    /\ PolarOK(1000 * a[1], 1000 * a[2], v[4], v[6]) /\ PolarOK(1000 * a[3], v[4], v[3], v[7]) /\ v[7] >= 0
    /\ \A i \in 1..3 : Near(MulU(v[3], v[7 + i]), 1000 * a[i], v[3] \div 500000 + 3)
\* x y z rho trans r phi theta of one point, lengths in ticks
Same(v, w, t) == \A i \in 1..Len(w) : Near(v[i], w[i], t)
HypOK(h, a, b) == LET m == Max2(Abs(a), Abs(b)) IN h >= m - 1 /\ Near(h, Hypot(a, b), m \div 8000 + 4)
GeoOK(v) == /\ \A i \in 1..8 : ~Bad(v[i])
            /\ v[5] = v[4] /\ HypOK(v[4], v[1], v[2]) /\ HypOK(v[6], v[4], v[3])
            /\ PolarOK(v[1], v[2], v[4], v[7]) /\ PolarOK(v[3], v[4], v[6], v[8]) /\ v[8] >= 0
CylOK(a, v) == LET t == Abs(a[1]) \div 300000 + 4 IN
    /\ Near(v[1], MulU(a[1], Cos(a[2])), t) /\ Near(v[2], MulU(a[1], Sin(a[2])), t) /\ Near(v[3], a[3], 1) /\ Near(v[4], Abs(a[1]), 1)
    /\ (a[1] > 10000 => Abs(Sym(v[7] - a[2])) <= 4 \/ Near(Abs(Sym(v[7] - a[2])), TwoPi, 4))
    /\ GeoOK(v)
SphOK(a, v) == LET t == Abs(a[1]) \div 200000 + 6 s == MulU(a[1], Sin(a[3])) IN
    /\ Near(v[1], MulU(s, Cos(a[2])), t) /\ Near(v[2], MulU(s, Sin(a[2])), t) /\ Near(v[3], MulU(a[1], Cos(a[3])), t) /\ Near(v[6], Abs(a[1]), 1)
    /\ GeoOK(v)
TurnOK(a, v) == /\ (a[1] = 0 /\ a[2] = 0 => v[1][7] = 0) /\ Same(v[1], a, 1) /\ GeoOK(v[1])
                /\ \A k \in 2..3 : \A i \in 1..6 : Near(v[k][i], v[1][i], 2)
                /\ \A k \in 2..3 : Near(v[k][8], v[1][8], 3)
\* printed: the components, phi, rho, theta and r
PrintOK(a, v) == /\ Len(v) = 7 /\ \A i \in 1..3 : v[i] = 1000 * a[i]
                 /\ RootOK(v[5], a[1] * a[1] + a[2] * a[2]) /\ RootOK(v[7], Dot(a, a)) /\ Abs(v[4]) <= 3142 /\ v[6] >= 0 /\ v[6] <= 3142
                 /\ LET xy == IF a[1] = 0 /\ a[2] = 0 THEN v[4] = 0 ELSE Near(MulU(v[5], Cos(1000 * v[4])), 1000 * a[1], v[5] \div 1000 + 3) /\ Near(MulU(v[5], Sin(1000 * v[4])), 1000 * a[2], v[5] \div 1000 + 3)
                    IN xy /\ (IF Dot(a, a) = 0 THEN v[6] = 0 ELSE Near(MulU(v[7], Cos(1000 * v[6])), 1000 * a[3], v[7] \div 1000 + 3))
ResOK(c) == IF c.op \in NOps THEN NResOK(c) ELSE
  /\ c.r.x = "ok"
  /\ CASE c.op = "unit" -> TRUE
       [] c.op \in Makers \cup {"set"} -> c.r.v = Show(Made(c))
       [] c.op \in {"get", "peek"} -> c.r.v = Show(reg[c.id])
       [] c.op = "eq" -> c.r.v = (reg[c.p] = reg[c.q])
       [] c.op = "dot" -> c.r.v = Dot(reg[c.p], reg[c.q])
       [] c.op = "mag" -> MagOK(reg[c.id], c.r.v)
       [] c.op = "conv" -> c.r.v = Show(reg[c.id])
       [] c.op = "print" -> PrintOK(reg[c.id], c.r.v)
       [] c.op = "cyl" -> CylOK(c.a, c.r.v)
       [] c.op = "sph" -> SphOK(c.a, c.r.v)
       [] c.op = "turn" -> TurnOK(c.a, c.r.v)
Init == reg = [x \in {} |-> 0] /\ nd = [x \in {} |-> 0]
\* laws of the model
Zero == <<0, 0, 0>>
NShape == \A i \in DOMAIN nd : Len(nd[i].a) = Dim[nd[i].k]
Laws == NShape /\ \A i, j \in DOMAIN reg : LET a == reg[i] b == reg[j] IN
   /\ Cross(a, b) = Minus(Zero, Cross(b, a)) /\ Dot(Cross(a, b), a) = 0 /\ Dot(Cross(a, b), b) = 0 /\ Minus(Plus(a, b), b) = a /\ Dot(a, b) = Dot(b, a)
   /\ Dot(Cross(a, b), Cross(a, b)) + Dot(a, b) * Dot(a, b) = Dot(a, a) * Dot(b, b)
   /\ Plus(a, a) = Times(2, a) /\ (Dot(a, a) = 0 <=> a = Zero)
=============================================================================
