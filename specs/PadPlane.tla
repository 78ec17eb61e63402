------------------------------ MODULE PadPlane ------------------------------
(* The four pad layouts as one machine: objects are built (from parameters, by adding rows, by copying or assigning) and
   asked. A layout is its construction parameters
     rect: a = <<xMin, xMax, yMin>>, groups g = <<count, n, padWidth, padHeight, rowHeight, left, right>>
     vers: a = <<rMin>>,             groups g = <<count, n, pitch, rowHeight, offset, padWidth, padHeight>>  (pitch -1: full circle)
     fps:  a = <<rMin, rMax, padHeight, padWidth, maxRows, gap, phiMax>>
     fpa:  a = <<rMin, rMax, rows, phiMin, phiMax, padsPerRow>>
   and every answer is computed from these (units: Geo). A query names a pad by its row and pad number. *)
EXTENDS Geo, FiniteSets, TLC
VARIABLE ob                       \* id |-> layout
vars == <<ob>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Sum(s) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE s[i] + S(i - 1) IN S(Len(s))
------------------------------------------------------------------------------
\* construction
\* (the opening of a fixed-size disk is taken modulo a full turn)
Base(k, a) == [k |-> k, a |-> IF k = "fps" /\ a[7] > TwoPi THEN [a EXCEPT ![7] = @ % TwoPi] ELSE a, g |-> <<>>, rep |-> 0]
Ctor(k, a) == IF k = "fps" /\ (a[3] <= 0 \/ a[4] <= 0) THEN "Parse"
              ELSE IF k = "fpa" /\ (a[3] <= 0 \/ a[6] <= 0) THEN "Exception" ELSE "ok"
RowHeightOf(k, g) == IF k = "rect" THEN (IF g[5] = 0 THEN g[4] ELSE g[5]) ELSE g[4]
Before(o, i) == LET RECURSIVE S(_) S(j) == IF j = 0 THEN <<0, 0>> ELSE LET p == S(j - 1) g == o.g[j]
                                              IN <<p[1] + g[1], p[2] + g[1] * RowHeightOf(o.k, g)>>
                IN S(i)                                         \* rows and height of the first i groups
Bottom(o) == IF o.k = "rect" THEN o.a[3] ELSE o.a[1]
Top(o) == IF o.k \in {"rect", "vers"} THEN Bottom(o) + Before(o, Len(o.g))[2] ELSE o.a[2]
Width(o, g) == o.a[2] - o.a[1] - g[6] - g[7]
AddRes(o, g) ==
  IF o.k = "rect"
  THEN IF g[1] <= 0 \/ g[2] <= 0 \/ \E i \in 3..7 : g[i] < 0 THEN "Exception"
       ELSE IF g[2] * g[3] > Width(o, g) \/ RowHeightOf("rect", g) < g[4] THEN "Exception" ELSE "ok"
  ELSE LET c == Top(o) + g[4] \div 2 IN
       IF g[2] <= 0 \/ g[3] < -1 \/ g[6] < 0 \/ (g[3] # -1 /\ g[6] > g[3]) \/ g[4] <= 0 \/ g[1] <= 0
          \/ (g[3] # -1 /\ DivU(g[3] * g[2], c) > TwoPi) THEN "Exception" ELSE "ok"
Add(o, g) == [o EXCEPT !.g = Append(@, g)]
Times(s, n) == LET RECURSIVE T(_) T(k) == IF k = 0 THEN <<>> ELSE T(k - 1) \o s IN T(n)
\* repeated rows come one by one (the helper list of equal rows says so), the first call only
Single(s) == LET RECURSIVE T(_) T(i) == IF i = 0 THEN <<>> ELSE T(i - 1) \o [j \in 1..s[i][1] |-> [s[i] EXCEPT ![1] = 1]] IN T(Len(s))
Repeat(o, n) == IF o.rep > 0 \/ n = 0 THEN o ELSE [o EXCEPT !.g = @ \o Times(Single(@), n - 1), !.rep = n]
------------------------------------------------------------------------------
\* rows
\* radius times angle, exactly, rounded down
Arc(c, t) == LET ch == c \div 1000 cl == c % 1000 th == t \div 1000 tl == t % 1000
             IN ch * th + (ch * tl + cl * th + (cl * tl) \div 1000) \div 1000
FpsRows(o) == LET nr == (o.a[2] + 100 - o.a[1]) \div o.a[3] IN IF o.a[5] > 0 THEN Min2(o.a[5], nr) ELSE nr
NRows(o) == CASE o.k = "fps" -> FpsRows(o) [] o.k = "fpa" -> o.a[3] [] OTHER -> Before(o, Len(o.g))[1]
WrapOffset(x) == IF x >= TwoPi THEN x % TwoPi ELSE IF x < -TwoPi THEN -((-x) % TwoPi) ELSE x
GroupRow(o, r) == LET i == CHOOSE j \in 1..Len(o.g) : Before(o, j - 1)[1] <= r /\ r < Before(o, j)[1]
                      b == Before(o, i - 1) g == o.g[i] rh == RowHeightOf(o.k, g)
                      lo == Bottom(o) + b[2] + (r - b[1]) * rh c == lo + rh \div 2
                  IN IF o.k = "rect"
                     THEN [n |-> g[2], lo |-> lo, hi |-> lo + rh, c |-> c, rh |-> rh, h |-> g[4], w |-> g[3], a |-> o.a[1] + g[6], T |-> Width(o, g)]
                     ELSE LET T == IF g[3] = -1 THEN TwoPi ELSE DivU(g[3] * g[2], c) IN
                          [n |-> g[2], lo |-> lo, hi |-> lo + rh, c |-> c, rh |-> rh, h |-> IF g[7] = 0 THEN rh ELSE g[7],
                           w |-> IF g[6] = 0 THEN T \div g[2] ELSE DivU(g[6], c), a |-> WrapOffset(DivU(g[5], c)), T |-> T]
Row(o, r) ==
  CASE o.k = "fps" -> LET N == FpsRows(o) D == o.a[2] - o.a[1] c == o.a[1] + Part(2 * r + 1, D, 2 * N) n == Arc(c, o.a[7]) \div (o.a[4] + o.a[6])
                      IN [n |-> n, lo |-> o.a[1] + Part(r, D, N), hi |-> o.a[1] + Part(r + 1, D, N), c |-> c, rh |-> D \div N, h |-> o.a[3],
                          w |-> DivU(o.a[4], c), a |-> 0, T |-> o.a[7]]
    [] o.k = "fpa" -> LET N == o.a[3] D == o.a[2] - o.a[1]
                      IN [n |-> o.a[6], lo |-> o.a[1] + Part(r, D, N), hi |-> o.a[1] + Part(r + 1, D, N), c |-> o.a[1] + Part(2 * r + 1, D, 2 * N),
                          rh |-> D \div N, h |-> D \div N, w |-> (o.a[5] - o.a[4]) \div o.a[6], a |-> o.a[4], T |-> o.a[5] - o.a[4]]
    [] OTHER -> GroupRow(o, r)
Rows(o) == 0..(NRows(o) - 1)
IsRow(o, r) == r >= 0 /\ r < NRows(o)
IsPad(o, r, p) == IsRow(o, r) /\ p >= 0 /\ p < Row(o, r).n
NPads(o) == CASE o.k \in {"rect", "vers"} -> Sum([i \in 1..Len(o.g) |-> o.g[i][1] * o.g[i][2]])
              [] o.k = "fpa" -> o.a[3] * o.a[6]
              [] OTHER -> Sum([i \in 1..NRows(o) |-> Row(o, i - 1).n])
Polar(o) == o.k # "rect"
Ring(o, w) == Polar(o) /\ w.T >= TwoPi - 1
\* the other pad of a step in the sense of increasing coordinate, -1 if there is none
Step(o, r, p, d) == LET w == Row(o, r) q == p + d IN IF q >= 0 /\ q < w.n THEN q ELSE IF Ring(o, w) THEN q % w.n ELSE -1
LeftDir(o) == IF Polar(o) THEN 1 ELSE -1
Mid(w, p) == w.a + Part(2 * p + 1, w.T, 2 * w.n)
Pitch(w) == w.T \div w.n
ExtOf(o) == CASE o.k = "rect" -> <<o.a[1], o.a[2], o.a[3], Top(o)>>
              [] o.k = "fps" -> <<o.a[1], o.a[2], 0, o.a[7]>>
              [] o.k = "fpa" -> <<o.a[1], o.a[2], o.a[4], o.a[5]>>
              [] OTHER -> IF NRows(o) = 0 THEN <<o.a[1], o.a[1], 0, 0>>
                          ELSE LET R == {Row(o, r) : r \in Rows(o)} IN
                               <<o.a[1], Top(o), CHOOSE x \in {w.a : w \in R} : \A y \in {w.a : w \in R} : x <= y,
                                 CHOOSE x \in {w.a + w.T : w \in R} : \A y \in {w.a + w.T : w \in R} : x >= y>>
ExtOK(o, v) == /\ Len(v) = 4
               /\ LET e == ExtOf(o) t == IF Polar(o) THEN 4 ELSE 1 same == \A i \in 1..4 : Near(v[i], e[i], IF i > 2 THEN t ELSE 1)
                      full == o.k = "vers" /\ Near(v[1], e[1], 1) /\ Near(v[2], e[2], 1) /\ Near(v[3], 0, 3) /\ Near(v[4], TwoPi, 3)
                  IN IF o.k = "vers" /\ e[4] - e[3] > TwoPi + 6 THEN full ELSE same \/ (full /\ e[4] - e[3] >= TwoPi - 6)
------------------------------------------------------------------------------
\* geometry
AngTol == 5
\* distance of a point to a pad: the metal of rectangular layouts, pitch times row height otherwise
Dist(o, w, p, x, y) == IF ~Polar(o) THEN LET m == Mid(w, p) IN BoxDist(x, y, m - w.w \div 2, m + w.w \div 2, w.c - w.h \div 2, w.c + w.h \div 2)
                       ELSE SectorDist(x, y, w.lo, w.hi, Mid(w, p), w.T \div (2 * w.n))
Cell(o, w, x, y) == IF ~Polar(o) THEN Clamp(((x - w.a) * w.n) \div w.T, 0, w.n - 1)
                    ELSE LET d == Sym(y - (w.a + w.T \div 2)) + w.T \div 2 IN Clamp(d \div (w.T \div w.n), 0, w.n - 1)   \* perhaps one too far
RowDist(o, w, x, y) == IF Polar(o) THEN SectorDist(x, y, w.lo, w.hi, w.a + w.T \div 2, w.T \div 2)
                       ELSE LET c == Cell(o, w, x, y)
                                D == {Dist(o, w, q, x, y) : q \in {c - 1, c, c + 1} \cap 0..(w.n - 1)}
                            IN CHOOSE d \in D : \A e \in D : d <= e
Band(o, w, x, y) == LET v == IF Polar(o) THEN x ELSE y IN IF v < w.lo THEN w.lo - v ELSE IF v > w.hi THEN v - w.hi ELSE 0
MinDist(o, x, y) == LET RECURSIVE M(_, _) M(r, m) == IF r = NRows(o) THEN m ELSE
                          LET w == Row(o, r) IN IF w.n = 0 \/ Band(o, w, x, y) > m THEN M(r + 1, m) ELSE M(r + 1, Min2(m, RowDist(o, w, x, y)))
                    IN M(0, 2000000000)
DistTol(d) == 20 + d \div 5000
\* -1: outside, 0: too close to the border to tell, 1: inside; exact tells whether borders are decided too
Side(v, half, tol) == IF tol < 0 THEN (IF Abs(v) <= half THEN 1 ELSE -1) ELSE IF Abs(v) <= half - tol THEN 1 ELSE IF Abs(v) <= half + tol THEN 0 ELSE -1
And(a, b) == Min2(a, b)
Inside(o, w, p, x, y, exact) ==
  IF ~Polar(o) THEN And(Side(x - Mid(w, p), w.w \div 2, IF exact THEN -1 ELSE 3), Side(y - w.c, w.h \div 2, IF exact THEN -1 ELSE 3))
  ELSE LET metal == o.k = "fps" IN
       And(Side(x - w.c, (IF metal THEN w.h ELSE w.rh) \div 2, 3), And(IF x < o.a[1] - 3 /\ metal THEN -1 ELSE 1, Side(Sym(y - Mid(w, p)), (IF metal THEN w.w ELSE Pitch(w)) \div 2, AngTol + (IF metal THEN w.w \div 100000 ELSE 0))))
InsideAny(o, x, y, exact) ==
  LET S == {LET w == Row(o, r) IN
            IF Band(o, w, x, y) > 3 \/ w.n = 0 THEN -1
            ELSE LET c == Cell(o, w, x, y) Q == {q \in {c - 1, c, c + 1} : q >= 0 /\ q < w.n} \cup (IF Ring(o, w) THEN {0, w.n - 1} ELSE {})
                     I == {Inside(o, w, q, x, y, exact) : q \in Q}
                 IN CHOOSE i \in I : \A j \in I : i >= j
            : r \in Rows(o)}
  IN IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i >= j
BoolOK(s, v) == s = 0 \/ v = (s = 1)
HasPads(o) == \E r \in Rows(o) : Row(o, r).n > 0
------------------------------------------------------------------------------
Type(k) == CASE k = "rect" -> 1 [] k = "fps" -> 2 [] k = "fpa" -> 3 [] OTHER -> 4
Builders == {"new", "addrow", "repeat", "copy", "clone", "assign", "del"}
Queries == {"types", "nrows", "npads", "ext", "rowh", "padsin", "index", "geo", "left", "right", "nearest", "inside", "insideany", "dist", "centre", "detail"}
Ops == Builders \cup Queries
Enabled(c) == IF c.op = "new" THEN TRUE
              ELSE c.id \in DOMAIN ob /\ (c.op \in {"copy", "clone", "assign"} => c.from \in DOMAIN ob) /\ (c.op = "assign" => ob[c.id].k = ob[c.from].k)
Allowed(c) == Enabled(c) \/ (c.op \in {"copy", "clone"} /\ c.from \in DOMAIN ob)
\* what must come back from a builder
Want(c) == CASE c.op = "new" -> Ctor(c.k, c.a) [] c.op = "addrow" -> AddRes(ob[c.id], c.g)
             [] c.op = "repeat" -> IF c.n = 0 THEN "Exception" ELSE "ok" [] OTHER -> "ok"
Do(c) == CASE c.op = "new" -> ob' = (IF Want(c) = "ok" THEN Put(ob, c.id, Base(c.k, c.a)) ELSE ob)
           [] c.op = "addrow" -> ob' = (IF Want(c) = "ok" THEN [ob EXCEPT ![c.id] = Add(@, c.g)] ELSE ob)
           [] c.op = "repeat" -> ob' = [ob EXCEPT ![c.id] = Repeat(@, c.n)]
           [] c.op \in {"copy", "clone", "assign"} -> ob' = Put(ob, c.id, ob[c.from])
           [] c.op = "del" -> ob' = [x \in DOMAIN ob \ {c.id} |-> ob[x]]
           [] OTHER -> ob' = ob
PadRes(o, r, p, v) == v = <<r, p, 1>>
GeoOK(o, w, p, v) == LET t == IF Polar(o) THEN 4 ELSE 2 IN
   IF Polar(o) THEN Near(v[1], w.c, 2) /\ Near(v[2], Mid(w, p), 4) /\ Near(v[3], w.w, 4 + w.w \div 100000) /\ Near(v[4], w.h, 2) /\ Near(v[5], Pitch(w), 4)
   ELSE Near(v[1], Mid(w, p), 2) /\ Near(v[2], w.c, 2) /\ Near(v[3], w.w, 2) /\ Near(v[4], w.h, 2) /\ Near(v[5], Pitch(w), 2)
\* what the concrete classes tell about a row
DetailOK(o, r, v) ==
  CASE o.k = "rect" -> /\ v[1] = o.rep /\ v[2] = [i \in 1..Len(o.g) |-> o.g[i][1]]
                       /\ LET w == Row(o, r) IN v[3] = w.n /\ Near(v[4], w.w, 2) /\ Near(v[5], w.h, 2) /\ Near(v[6], w.rh, 2) /\ Near(v[7], w.c, 2) /\ Near(v[8], Pitch(w), 2)
                                                /\ Near(v[9], w.a - o.a[1], 2) /\ Near(v[10], o.a[2] - w.a - w.T, 2)
    [] o.k = "fps" -> Near(v[1], o.a[6], 1) /\ Near(v[2], o.a[4], 1)
    [] o.k = "fpa" -> v[1] = o.a[6] /\ Near(v[2], (o.a[5] - o.a[4]) \div o.a[6], 3) /\ v[3] = 0
    [] OTHER -> LET w == Row(o, r) IN /\ v[1] = r /\ v[2] = w.n /\ Near(v[3], w.c, 2) /\ Near(v[4], Pitch(w), 4) /\ Near(v[5], w.w, 4) /\ Near(v[6], w.rh, 2) /\ Near(v[7], w.h, 2)
                                      /\ Near(v[8], w.a, 4) /\ Near(v[9], w.a, 4) /\ Near(v[10], w.a + w.T, 4) /\ Near(v[11], w.lo, 2) /\ Near(v[12], w.hi, 2)
                                      \* the millimetre values belong to the angles
                                      /\ Near(v[13], v[4], 3) /\ Near(v[14], v[5], 3) /\ Near(v[15], v[8], 3)
QueryOK(c) ==
  LET o == ob[c.id] x == c.r.x IN
  CASE c.op = "types" -> x = "ok" /\ c.r.v = <<Type(o.k), IF Polar(o) THEN 2 ELSE 1, IF Polar(o) THEN 2 ELSE 1, 1>>
    [] c.op = "nrows" -> x = "ok" /\ c.r.v = NRows(o)
    [] c.op = "npads" -> x = "ok" /\ c.r.v = NPads(o)
    [] c.op = "ext" -> x = "ok" /\ ExtOK(o, c.r.v)
    [] c.op = "rowh" -> IF IsRow(o, c.row) THEN x = "ok" /\ Near(c.r.v, Row(o, c.row).rh, 2) ELSE o.k \in {"fps", "fpa"} \/ x # "ok"
    [] c.op = "padsin" -> x = "ok" /\ c.r.v = (IF IsRow(o, c.row) THEN LET n == Row(o, c.row).n IN <<n, n>> ELSE <<0, 0>>)
    [] c.op = "index" -> IF IsPad(o, c.row, c.pad) THEN x = "ok" /\ c.r.v = <<c.row, c.pad>> ELSE x \in {"std", "Exception"}
    [] c.op = "nearest" -> IF ~HasPads(o) THEN x \notin {"ok"} /\ x \in {"std", "Exception"}
                           ELSE /\ x = "ok" /\ c.r.v[3] = 1 /\ IsPad(o, c.r.v[1], c.r.v[2])
                                /\ LET m == MinDist(o, c.px, c.py) IN Dist(o, Row(o, c.r.v[1]), c.r.v[2], c.px, c.py) <= m + DistTol(m)
    [] c.op = "insideany" -> x = "ok" /\ BoolOK(InsideAny(o, c.px, c.py, c.exact), c.r.v)
    [] c.op = "detail" -> x = "ok" /\ DetailOK(o, c.row, c.r.v)
    [] OTHER ->
       LET w == Row(o, c.row) p == c.pad IN
       CASE c.op = "geo" -> x = "ok" /\ GeoOK(o, w, p, c.r.v)
         [] c.op = "left" -> LET q == Step(o, c.row, p, LeftDir(o)) IN IF q < 0 THEN x = "Exception" ELSE x = "ok" /\ PadRes(o, c.row, q, c.r.v)
         [] c.op = "right" -> LET q == Step(o, c.row, p, -LeftDir(o)) IN IF q < 0 THEN x = "Exception" ELSE x = "ok" /\ PadRes(o, c.row, q, c.r.v)
         [] c.op = "inside" -> x = "ok" /\ BoolOK(Inside(o, w, p, c.px, c.py, c.exact), c.r.v)
         [] c.op = "dist" -> x = "ok" /\ LET d == Dist(o, w, p, c.px, c.py) IN Near(c.r.v, d, DistTol(d)) /\ c.r.v >= 0
         \* the centre of a pad: inside the pad, inside some pad, itself the nearest, at no distance
         [] c.op = "centre" -> x = "ok" /\ c.r.v = <<1, 1, c.row, p, 0>>
         [] OTHER -> FALSE
ResOK(c) == IF c.op \in Builders THEN c.r.x = Want(c) ELSE QueryOK(c)
Init == ob = [x \in {} |-> 0]
\* laws of the model itself, checked on every reachable layout of PadPlaneMC
NeighbourLaws(o) == \A r \in Rows(o) : \A p \in 0..(Row(o, r).n - 1) : \A d \in {-1, 1} :
   LET q == Step(o, r, p, d) IN q >= 0 => q < Row(o, r).n /\ Step(o, r, q, -d) = p /\ (q - p = d \/ (Ring(o, Row(o, r)) /\ Abs(q - p) = Row(o, r).n - 1))
CountLaw(o) == NPads(o) = Sum([i \in 1..NRows(o) |-> Row(o, i - 1).n])
StackLaw(o) == \A r \in Rows(o) : LET w == Row(o, r) IN /\ w.lo = (IF r = 0 THEN Bottom(o) ELSE Row(o, r - 1).hi)
                                                         /\ (r = NRows(o) - 1 => w.hi = Top(o))
CentreLaw(o) == \A r \in Rows(o) : LET w == Row(o, r) IN \A p \in 0..(w.n - 1) :
   LET x == IF Polar(o) THEN w.c ELSE Mid(w, p) y == IF Polar(o) THEN Mid(w, p) ELSE w.c IN
   Inside(o, w, p, x, y, FALSE) = 1 /\ InsideAny(o, x, y, FALSE) = 1 /\ Dist(o, w, p, x, y) = 0 /\ MinDist(o, x, y) = 0
ExtLaw(o) == \A r \in Rows(o) : LET w == Row(o, r) e == ExtOf(o) IN
   IF Polar(o) THEN e[1] <= w.lo /\ w.hi <= e[2] /\ e[3] <= w.a /\ w.a + w.T <= e[4] ELSE e[1] <= w.a /\ w.a + w.T <= e[2] /\ e[3] <= w.lo /\ w.hi <= e[4]
Laws == \A i \in DOMAIN ob : LET o == ob[i] IN NeighbourLaws(o) /\ CountLaw(o) /\ StackLaw(o) /\ CentreLaw(o) /\ ExtLaw(o)
=============================================================================
