-------------------------------- MODULE TPC --------------------------------
(* TPC modules (a pad layout placed on an end plate) and TPCs (drift volumes with modules).
   A module is what was set on it: identifier, layout o, coordinate type tc of its TPC (1 Cartesian, 2 polar), offset (in TPC
   coordinates), angle, z position (zs: set), border, frequency, user values. Local points are rotated by the angle, shifted by the
   offset and, on the negative half (z set and not positive), mirrored in x. The recorded answer of a point query contains the
   local image the code itself uses; the specification maps it forward again and then judges the answer at that image. *)
EXTENDS PadPlane, SequencesExt
VARIABLES mo, tp                     \* free modules, TPCs
tvars == <<ob, mo, tp>>
NoF == [x \in {} |-> 0]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
MkLay(k, a, gs) == [Base(k, a) EXCEPT !.g = gs]
------------------------------------------------------------------------------
\* placement
Mirrored(m) == m.zs /\ m.z <= 0
Cart(polar, p) == IF polar THEN <<MulU(p[1], Cos(p[2])), MulU(p[1], Sin(p[2]))>> ELSE <<p[1], p[2]>>
Rot(p, a) == LET c == Cos(a) s == Sin(a) IN <<MulU(p[1], c) - MulU(p[2], s), MulU(p[2], c) + MulU(p[1], s)>>
GPolar(m) == m.tc = 2
OffC(m) == Cart(GPolar(m), m.off)
Fwd(m, l) == LET q == Rot(Cart(Polar(m.o), l), m.ang) f == OffC(m) IN <<IF Mirrored(m) THEN -(q[1] + f[1]) ELSE q[1] + f[1], q[2] + f[2]>>
\* global Cartesian point to local coordinates
Inv(m, g) == LET f == OffC(m) q == Rot(<<(IF Mirrored(m) THEN -g[1] ELSE g[1]) - f[1], g[2] - f[2]>>, -m.ang)
             IN IF Polar(m.o) THEN <<Hypot(q[1], q[2]), Atan2(q[2], q[1])>> ELSE q
Size(p) == Abs(p[1]) + Abs(p[2])
\* p (global, TPC coordinates) and l (local) are the same point
Same(m, p, l) == LET a == Fwd(m, l) b == Cart(GPolar(m), p) t == 10 + (Size(a) + Size(b) + Size(OffC(m))) \div 120000
                 IN ~Bad(l[1]) /\ ~Bad(l[2]) /\ Near(a[1], b[1], t) /\ Near(a[2], b[2], t)
------------------------------------------------------------------------------
\* extents
EffExt(o) == LET e == ExtOf(o) IN IF o.k = "vers" /\ e[4] - e[3] > TwoPi + 6 THEN <<e[1], e[2], 0, TwoPi>> ELSE e
LocOf(polar, e, b) ==
  IF b = 0 THEN e
  ELSE IF ~polar THEN <<e[1] - b, e[2] + b, e[3] - b, e[4] + b>>
  ELSE LET pb == IF e[1] * 4 > b THEN DivU(b, e[1]) ELSE 2 * Pi w == e[4] - e[3] + 2 * pb mid == (e[3] + e[4]) \div 2
       IN IF w > TwoPi THEN <<Max2(0, e[1] - b), e[2] + b, mid - Pi, mid + Pi>> ELSE <<Max2(0, e[1] - b), e[2] + b, e[3] - pb, e[4] + pb>>
LocExt(m) == LocOf(Polar(m.o), EffExt(m.o), m.b)
Mid2(e) == (e[3] + e[4]) \div 2
Half2(e) == IF e[4] - e[3] >= TwoPi - 6 THEN Pi + 3 ELSE (e[4] - e[3]) \div 2
InMod(m, l) == LET e == LocExt(m) IN
   IF ~Polar(m.o) THEN And(Side(2 * l[1] - e[1] - e[2], e[2] - e[1], 6), Side(2 * l[2] - e[3] - e[4], e[4] - e[3], 6))
   ELSE And(Side(2 * l[1] - e[1] - e[2], e[2] - e[1], 6), IF Half2(e) > Pi THEN (IF Abs(Sym(l[2] - e[3])) <= 6 THEN 0 ELSE 1) ELSE Side(Sym(l[2] - Mid2(e)), Half2(e), 6))     \* a full ring has a seam as thin as rounding
ModDist(m, l) == LET e == LocExt(m) IN IF Polar(m.o) THEN SectorDist(l[1], l[2], e[1], e[2], Mid2(e), Half2(e)) ELSE BoxDist(l[1], l[2], e[1], e[2], e[3], e[4])
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Corners(e) == {<<e[1], e[3]>>, <<e[1], e[4]>>, <<e[2], e[3]>>, <<e[2], e[4]>>}
\* local angle of the global direction u
LocDir(m, u) == (IF Mirrored(m) THEN Pi - u ELSE u) - m.ang
\* local points among which the extremes in global x and y are
Extremes(m, e) == Corners(e) \cup (IF Polar(m.o) THEN {<<e[2], LocDir(m, u)>> : u \in {v \in {0, HalfPi, Pi, 3 * HalfPi} : Abs(Sym(LocDir(m, v) - Mid2(e))) <= Half2(e)}} ELSE {})
CartExt(m, e) == LET S == {Fwd(m, p) : p \in Extremes(m, e)} X == {p[1] : p \in S} Y == {p[2] : p \in S} IN <<SetMin(X), SetMax(X), SetMin(Y), SetMax(Y)>>
\* offsets are polar here: distance and local direction of the global origin; local angles at which a line from it touches the outer arc
OrigR(m) == m.off[1]
OrigPhi(m) == m.off[2] + Pi - m.ang
Tangents(m, e) == IF OrigR(m) <= e[2] THEN {} ELSE LET a == ACos(e[2], OrigR(m)) IN {p \in {OrigPhi(m) - a, OrigPhi(m) + a} : Abs(Sym(p - Mid2(e))) <= Half2(e)}
\* the border of a ring sector as a closed walk, and the range of directions seen from the global origin along it
NArc == 32
Walk(m, e) == LET W == e[4] - e[3] D == e[2] - e[1]
                  S == {Part(i, W, NArc) : i \in 0..NArc} \cup {x \in {(p - e[3]) % TwoPi : p \in Tangents(m, e)} : x <= W}
                  A == SetToSortSeq(S, LAMBDA x, y : x < y) IN
   [i \in 1..Len(A) |-> <<e[2], e[3] + A[i]>>] \o [i \in 1..5 |-> <<e[2] - Part(i, D, 6), e[4]>>]
   \o [i \in 1..(NArc + 1) |-> <<e[1], e[4] - Part(i - 1, W, NArc)>>] \o [i \in 1..6 |-> <<e[1] + Part(i, D, 6), e[3]>>]
DirOf(m, l) == LET g == Fwd(m, l) IN Atan2(g[2], g[1])
PolarPhi(m, e) == LET w == Walk(m, e)
                      RECURSIVE U(_, _, _, _, _)
                      U(i, last, cur, lo, hi) == IF i > Len(w) THEN <<lo, hi>> ELSE
                           LET a == DirOf(m, w[i]) c == cur + Sym(a - last) IN U(i + 1, a, c, Min2(lo, c), Max2(hi, c))
                      a0 == DirOf(m, w[1])
                  IN U(2, a0, a0, a0, a0)
\* g is the smallest polar extent around the ring sector e, seen from the global origin
PolarPolarOK(m, e, g) ==
  IF OrigR(m) = 0
  THEN LET lo == IF Mirrored(m) THEN Pi - e[4] - m.ang ELSE e[3] + m.ang IN
       Near(g[1], e[1], 2) /\ Near(g[2], e[2], 2) /\ Near(g[4] - g[3], e[4] - e[3], 8) /\ (e[4] - e[3] >= TwoPi - 6 \/ Abs(Sym(g[3] - lo)) <= 10)
  ELSE LET d == OrigR(m) b == OrigPhi(m) sd == SectorDist(d, b, e[1], e[2], Mid2(e), Half2(e))
           rmax == IF Abs(Sym(b + Pi - Mid2(e))) <= Half2(e) THEN d + e[2] ELSE SetMax({LET q == Fwd(m, p) IN Hypot(q[1], q[2]) : p \in Corners(e)})
           tol == 30 + 12000000 \div Max2(sd, 1)
           deep == Half2(e) > Pi \/ MulU(Min2(d, e[2]), Half2(e) - Abs(Sym(b - Mid2(e)))) > e[2] \div 50 + 200
           full == g[4] - g[3] >= TwoPi - 8 /\ g[4] - g[3] <= TwoPi + 8
       IN /\ Near(g[1], sd, DistTol(sd)) /\ Near(g[2], rmax, DistTol(rmax))
          /\ IF sd = 0 THEN (d > e[1] + 200 /\ d < e[2] - 200 /\ deep => full)
             ELSE IF sd < e[2] \div 100 + 200 THEN TRUE
             ELSE LET p == PolarPhi(m, e) w == p[2] - p[1] IN
                  IF w > TwoPi + tol THEN full
                  ELSE (w >= TwoPi - tol /\ full) \/ (w <= TwoPi + 8 /\ Near(g[4] - g[3], w, 2 * tol) /\ Abs(Sym(g[3] - p[1])) <= tol)
GlobOK(m, e, g) == /\ Len(g) = 4 /\ \A i \in 1..4 : ~Bad(g[i])
                   /\ IF ~GPolar(m) THEN LET c == CartExt(m, e) t == 20 + (Abs(e[2]) + Size(OffC(m))) \div 50000 IN \A i \in 1..4 : Near(g[i], c[i], t)
                      ELSE ~Polar(m.o) \/ PolarPolarOK(m, e, g)       \* Cartesian pads in a polar TPC have no extent yet
ExtAns(m, v) == /\ ExtOK(m.o, v[1])
                /\ LET le == LocOf(Polar(m.o), v[1], m.b) IN \A i \in 1..4 : Near(v[2][i], le[i], IF i > 2 THEN 6 ELSE 2)
                /\ GlobOK(m, v[1], v[3]) /\ GlobOK(m, v[2], v[4])
------------------------------------------------------------------------------
\* one module, asked for a point with local image l
Far(m, l) == Polar(m.o) /\ l[1] < 1000                  \* so close to the centre of a polar layout that its angle means little
NearPad(m, l, v) == /\ v[3] = 1 /\ IsPad(m.o, v[1], v[2])
                    /\ LET d == MinDist(m.o, l[1], l[2]) IN Dist(m.o, Row(m.o, v[1]), v[2], l[1], l[2]) <= d + DistTol(d)
PointOK(m, c) ==
  LET l == c.r.v[1] a == c.r.v[2] IN
  Same(m, <<c.px, c.py>>, l) /\
  CASE c.op = "g2l" -> a >= 0 /\ a <= 5
    [] Far(m, l) -> TRUE
    [] c.op = "minside" -> BoolOK(InMod(m, l), a)
    [] c.op = "mdist" -> LET d == ModDist(m, l) IN a >= 0 /\ Near(a, d, DistTol(d)) /\ (InMod(m, l) = 1 => a = 0)
    [] c.op = "mnear" -> NearPad(m, l, a)
    [] c.op = "minany" -> BoolOK(InsideAny(m.o, l[1], l[2], FALSE), a)
    [] c.op = "minpad" -> BoolOK(Inside(m.o, Row(m.o, c.row), c.pad, l[1], l[2], FALSE), a)
    [] c.op = "mpdist" -> LET d == Dist(m.o, Row(m.o, c.row), c.pad, l[1], l[2]) IN a >= 0 /\ Near(a, d, DistTol(d))
    [] OTHER -> FALSE
PadC(o, r, p) == LET w == Row(o, r) IN IF Polar(o) THEN <<w.c, Mid(w, p)>> ELSE <<Mid(w, p), w.c>>
Nb(o, r, p, d) == LET q == Step(o, r, p, d) IN IF q < 0 THEN <<-1, -1, -1>> ELSE <<r, q, 1>>
DelegOK(o, r, p, v) == LET w == Row(o, r) t == IF Polar(o) THEN 4 ELSE 2 IN
   /\ v[1] = NRows(o) /\ v[2] = NPads(o) /\ Near(v[3], w.rh, 2) /\ Near(v[4], w.w, t + w.w \div 100000) /\ Near(v[5], w.h, 2) /\ Near(v[6], Pitch(w), t) /\ v[7] = w.n
   /\ v[8] = <<r, p, 1>> /\ v[9] = Nb(o, r, p, LeftDir(o)) /\ v[10] = Nb(o, r, p, -LeftDir(o))
ModQueries == {"mget", "mgetparam", "mtypes", "mext", "g2l", "l2g", "minside", "mdist", "mnear", "minany", "minpad", "mpdist", "mcentre", "mdeleg"}
ModOK(m, c) ==
  LET x == c.r.x v == c.r.v IN
  IF c.op = "mgetparam" THEN IF c.n \in DOMAIN m.us THEN x = "ok" /\ v = m.us[c.n] ELSE x = "Unknown"
  ELSE IF c.op \in {"mnear", "minany"} /\ x = "Exception" THEN Polar(m.o) /\ Inv(m, Cart(GPolar(m), <<c.px, c.py>>))[1] < 1200     \* no nearest pad of the centre itself
  ELSE x = "ok" /\
  CASE c.op = "mget" -> v[1] = m.ID /\ v[2] = m.tc /\ Near(v[3][1], m.off[1], 1) /\ Near(v[3][2], m.off[2], 1) /\ Near(v[4], m.ang, 1)
                        /\ v[5] = (IF m.zs THEN <<1, m.z>> ELSE <<0, 0>>) /\ Near(v[6], m.b, 1) /\ v[7] = m.f
    [] c.op = "mtypes" -> v = <<1, m.tc, m.tc, 1, IF Polar(m.o) THEN 2 ELSE 1, 1>>
    [] c.op = "mext" -> ExtAns(m, v)
    [] c.op = "l2g" -> Same(m, v[1], <<c.px, c.py>>) /\ v[2] >= 0 /\ v[2] <= 5
    [] c.op = "mcentre" -> Same(m, v[1], PadC(m.o, c.row, c.pad)) /\ v[2] = <<1, 1, c.row, c.pad, 0, 1, 0>>
    [] c.op = "mdeleg" -> DelegOK(m.o, c.row, c.pad, v)
    [] OTHER -> PointOK(m, c)
------------------------------------------------------------------------------
\* TPCs
InNeg(m) == ~m.zs \/ m.z <= 0
InPos(m) == ~m.zs \/ m.z > 0
NegIx(t) == {i \in 1..Len(t.mods) : InNeg(t.mods[i])}
PosIx(t) == {i \in 1..Len(t.mods) : InPos(t.mods[i])}
Cathode(t) == LET n == NegIx(t) p == PosIx(t) IN
   IF n # {} /\ p # {} THEN LET a == t.mods[SetMin(n)] b == t.mods[SetMin(p)] IN IF a.zs /\ b.zs THEN (a.z + b.z) \div 2 ELSE t.cath
   ELSE IF n # {} THEN t.mods[SetMin(n)].z + t.drift ELSE IF p # {} THEN t.mods[SetMin(p)].z - t.drift ELSE t.cath
IdIx(t, ID) == {i \in 1..Len(t.mods) : t.mods[i].ID = ID}
AddRes2(t, m) == IF m.tc # t.tc \/ IdIx(t, m.ID) # {} THEN "Exception" ELSE "ok"
AddMod(t, m) == LET u == [t EXCEPT !.mods = Append(@, m)] IN IF m.zs THEN [u EXCEPT !.cath = Cathode(u)] ELSE u
HalfIx(t, c) == IF c.d3 = 0 THEN 1..Len(t.mods) ELSE IF c.z <= t.cath THEN NegIx(t) ELSE PosIx(t)
TpcPoint(t, c) ==
  LET H == HalfIx(t, c) L == c.r.v.l a == c.r.v.a x == c.r.v.x IN
  /\ Len(L) = Len(t.mods) /\ \A i \in 1..Len(L) : Same(t.mods[i], <<c.px, c.py>>, L[i])
  /\ IF \E i \in H : Far(t.mods[i], L[i]) THEN TRUE ELSE
     CASE c.op = "tinmod" -> x = "ok" /\ BoolOK(SetMax({-1} \cup {InMod(t.mods[i], L[i]) : i \in H}), a)
       [] c.op = "tinpad" -> x = "ok" /\ BoolOK(SetMax({-1} \cup {InsideAny(t.mods[i].o, L[i][1], L[i][2], FALSE) : i \in H}), a)
       [] H = {} -> x = "Exception"
       [] c.op = "tnearmod" -> /\ x = "ok"
                               /\ LET D == {ModDist(t.mods[i], L[i]) : i \in H} d == SetMin(D) IN
                                  \E i \in H : t.mods[i].ID = a /\ ModDist(t.mods[i], L[i]) <= d + DistTol(d)
       [] OTHER -> /\ x = "ok"
                   /\ LET d == SetMin({MinDist(t.mods[i].o, L[i][1], L[i][2]) : i \in H}) IN
                      \E i \in H : LET o == t.mods[i].o r == a[2][1] p == a[2][2] IN
                         t.mods[i].ID = a[1] /\ a[2][3] = 1 /\ IsPad(o, r, p) /\ Dist(o, Row(o, r), p, L[i][1], L[i][2]) <= d + DistTol(d)
TpcQueries == {"tget", "tgetparam", "tgetfreq", "tgetpads", "text", "tnearmod", "tnearpad", "tinmod", "tinpad"}
TpcOK(t, c) ==
  LET x == c.r.x v == c.r.v n == Len(t.mods) IN
  CASE c.op = "tgetparam" -> IF c.n \in DOMAIN t.us THEN x = "ok" /\ v = t.us[c.n] ELSE x = "Unknown"
    [] c.op = "tget" -> x = "ok" /\ v = <<t.drift, t.tc, n, [i \in 1..n |-> t.mods[i].ID], t.vel>>
    [] c.op = "tgetfreq" -> IF n = 1 THEN x = "ok" /\ v = t.mods[1].f ELSE x = "Exception"
    [] c.op = "tgetpads" -> IF n = 1 /\ t.mods[1].ang = 0 /\ t.mods[1].off = <<0, 0>> THEN x = "ok" /\ v = <<NRows(t.mods[1].o), NPads(t.mods[1].o), 1>> ELSE x = "Exception"
    [] c.op = "text" -> IF n = 0 THEN x = "Exception"
                        ELSE /\ x = "ok" /\ Len(v[2]) = n
                             /\ \A i \in 1..n : (t.tc = 2 /\ ~Polar(t.mods[i].o)) \/ GlobOK(t.mods[i], LocExt(t.mods[i]), v[2][i])
                             /\ LET S == {v[2][i] : i \in 1..n} IN
                                v[1] = <<SetMin({e[1] : e \in S}), SetMax({e[2] : e \in S}), SetMin({e[3] : e \in S}), SetMax({e[4] : e \in S})>>
    [] OTHER -> x = "ok" /\ TpcPoint(t, c)
------------------------------------------------------------------------------
Setters == {"setoff", "setang", "setz", "setborder", "setfreq", "mparam"}
MBuild == {"mkmod", "mcopy", "mclone", "massign", "mdel"} \cup Setters
TBuild == {"tnew", "tcopy", "tassign", "tdel", "tadd", "taddnull", "tpads", "tpadsmod", "tdrift", "tvel", "tfreq", "tparam"}
TOps == MBuild \cup TBuild \cup ModQueries \cup TpcQueries
TAllowed(c) ==
  CASE c.op = "mkmod" -> TRUE
    [] c.op \in {"mcopy", "mclone"} -> c.from \in DOMAIN mo
    [] c.op = "massign" -> c.m \in DOMAIN mo /\ c.from \in DOMAIN mo
    [] c.op \in Setters \cup {"mdel"} -> c.m \in DOMAIN mo
    [] c.op = "tnew" -> TRUE
    [] c.op = "tcopy" -> c.from \in DOMAIN tp
    [] c.op = "tassign" -> c.t \in DOMAIN tp /\ c.from \in DOMAIN tp
    [] c.op \in {"tadd", "tpadsmod"} -> c.t \in DOMAIN tp /\ c.m \in DOMAIN mo
    [] c.op \in ModQueries -> IF "m" \in DOMAIN c THEN c.m \in DOMAIN mo ELSE c.t \in DOMAIN tp
    [] OTHER -> c.t \in DOMAIN tp
NewMod(c) == [ID |-> c.ID, o |-> MkLay(c.k, c.a, c.gs), tc |-> c.tc, off |-> <<0, 0>>, ang |-> 0, zs |-> FALSE, z |-> 0, b |-> 0, f |-> c.f, us |-> NoF]
TWant(c) ==
  CASE c.op \in {"setoff", "setang", "setborder"} -> IF mo[c.m].tc = 2 /\ ~Polar(mo[c.m].o) THEN {"ok", "NotImpl"} ELSE {"ok"}
    [] c.op = "tadd" -> {AddRes2(tp[c.t], mo[c.m])}
    [] c.op \in {"taddnull", "tpadsmod"} -> {"Exception"}
    [] c.op = "tpads" -> IF tp[c.t].mods = <<>> THEN {"ok"} ELSE {"Exception"}
    [] c.op = "tfreq" -> IF Len(tp[c.t].mods) = 1 THEN {"ok"} ELSE {"Exception"}
    [] OTHER -> {"ok"}
TDo(c) ==
  /\ UNCHANGED ob
  /\ mo' = (CASE c.op = "mkmod" -> Put(mo, c.m, NewMod(c))
              [] c.op \in {"mcopy", "mclone", "massign"} -> Put(mo, c.m, mo[c.from])
              [] c.op = "mdel" -> Drop(mo, c.m)
              [] c.op = "setoff" -> [mo EXCEPT ![c.m].off = <<c.x, c.y>>]
              [] c.op = "setang" -> [mo EXCEPT ![c.m].ang = c.x]
              [] c.op = "setz" -> [mo EXCEPT ![c.m].z = c.x, ![c.m].zs = TRUE]
              [] c.op = "setborder" -> [mo EXCEPT ![c.m].b = c.x]
              [] c.op = "setfreq" -> [mo EXCEPT ![c.m].f = c.x]
              [] c.op = "mparam" -> [mo EXCEPT ![c.m].us = Put(@, c.n, c.x)]
              [] c.op = "tadd" -> IF TWant(c) = {"ok"} THEN Drop(mo, c.m) ELSE mo
              [] OTHER -> mo)
  /\ tp' = (CASE c.op = "tnew" -> Put(tp, c.t, [drift |-> IF c.plain = 1 THEN 0 ELSE c.drift, tc |-> IF c.plain = 1 THEN 2 ELSE c.tc, mods |-> <<>>, cath |-> 0, vel |-> 0, us |-> NoF])
              [] c.op \in {"tcopy", "tassign"} -> Put(tp, c.t, tp[c.from])
              [] c.op = "tdel" -> Drop(tp, c.t)
              [] c.op = "tadd" -> IF TWant(c) = {"ok"} THEN [tp EXCEPT ![c.t] = AddMod(@, mo[c.m])] ELSE tp
              [] c.op = "tpads" -> IF TWant(c) = {"ok"}
                                   THEN [tp EXCEPT ![c.t] = AddMod(@, [ID |-> 0, o |-> MkLay(c.k, c.a, c.gs), tc |-> @.tc, off |-> <<0, 0>>, ang |-> 0, zs |-> FALSE, z |-> 0, b |-> 0, f |-> 0, us |-> NoF])]
                                   ELSE tp
              [] c.op = "tdrift" -> [tp EXCEPT ![c.t] = LET u == [@ EXCEPT !.drift = c.x] IN [u EXCEPT !.cath = Cathode(u)]]
              [] c.op = "tvel" -> [tp EXCEPT ![c.t].vel = c.x]
              [] c.op = "tfreq" -> IF TWant(c) = {"ok"} THEN [tp EXCEPT ![c.t].mods[1].f = c.x] ELSE tp
              [] c.op = "tparam" -> [tp EXCEPT ![c.t].us = Put(@, c.n, c.x)]
              [] OTHER -> tp)
TResOK(c) == IF c.op \in MBuild \cup TBuild THEN c.r.x \in TWant(c)
             ELSE IF c.op \in TpcQueries THEN TpcOK(tp[c.t], c)
             ELSE IF "m" \in DOMAIN c THEN ModOK(mo[c.m], c)
             ELSE LET I == IdIx(tp[c.t], c.ID) IN IF I = {} THEN c.r.x = "Exception" ELSE ModOK(tp[c.t].mods[CHOOSE i \in I : TRUE], c)
TInit0 == Init /\ mo = NoF /\ tp = NoF
------------------------------------------------------------------------------
\* laws of the model itself
Pts(m) == {PadC(m.o, r, p) : r \in Rows(m.o), p \in {0}} \cup Corners(LocExt(m))
ModLaws(m) ==
  /\ \A l \in Pts(m) : LET g == Fwd(m, l) h == Fwd(m, Inv(m, g)) t == 20 + (Size(g) + Size(OffC(m))) \div 10000 IN Near(g[1], h[1], t) /\ Near(g[2], h[2], t)
  /\ \A r \in Rows(m.o) : LET l == PadC(m.o, r, 0) IN InMod(m, l) = 1 /\ ModDist(m, l) = 0
  /\ GPolar(m) \/ LET g == CartExt(m, LocExt(m)) IN \A l \in Pts(m) : LET p == Fwd(m, l) IN p[1] >= g[1] - 60 /\ p[1] <= g[2] + 60 /\ p[2] >= g[3] - 60 /\ p[2] <= g[4] + 60
  /\ (GPolar(m) /\ Polar(m.o) /\ OrigR(m) > 0) => LET u == PolarPhi(m, LocExt(m)) IN u[1] <= u[2] /\ \A l \in Corners(LocExt(m)) : LET d == DirOf(m, l) IN (d - u[1]) % TwoPi <= u[2] - u[1] + 2000 \/ (u[1] - d) % TwoPi <= 2000
TpcLaws(t) == /\ \A i, j \in 1..Len(t.mods) : i # j => t.mods[i].ID # t.mods[j].ID
              /\ NegIx(t) \cup PosIx(t) = 1..Len(t.mods) /\ \A i \in NegIx(t) \cap PosIx(t) : ~t.mods[i].zs
              /\ \A i \in 1..Len(t.mods) : t.mods[i].tc = t.tc
TLaws == (\A i \in DOMAIN mo : ModLaws(mo[i])) /\ \A i \in DOMAIN tp : TpcLaws(tp[i])
=============================================================================
