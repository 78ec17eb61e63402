------------------------------ MODULE Surface -------------------------------
(* Measurement surfaces: a frame (rotations <<axis, angle>> applied one after the other, then a translation), a boundary in
   the frame (none, rectangle <<width, length, dw, alpha>> or trapezoid <<bottom, top, height, dw, alpha>>), an identifier;
   and stores that are filled once. Units: Geo. *)
EXTENDS Geo, FiniteSets, TLC
VARIABLES sf, st
vars == <<sf, st>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
------------------------------------------------------------------------------
\* one rotation about an axis, by (cos, sin)
Turn(ax, c, s, p) == CASE ax = 1 -> <<p[1], MulU(p[2], c) - MulU(p[3], s), MulU(p[2], s) + MulU(p[3], c)>>
                       [] ax = 2 -> <<MulU(p[1], c) + MulU(p[3], s), p[2], MulU(p[3], c) - MulU(p[1], s)>>
                       [] OTHER -> <<MulU(p[1], c) - MulU(p[2], s), MulU(p[1], s) + MulU(p[2], c), p[3]>>
Rotate(R, p) == LET RECURSIVE F(_) F(k) == IF k = 0 THEN p ELSE Turn(R[k][1], Cos(R[k][2]), Sin(R[k][2]), F(k - 1)) IN F(Len(R))
Back(R, p) == LET RECURSIVE F(_) F(k) == IF k > Len(R) THEN p ELSE Turn(R[k][1], Cos(R[k][2]), -Sin(R[k][2]), F(k + 1)) IN F(1)
Global(s, p) == LET q == Rotate(s.R, p) IN <<q[1] + s.T[1], q[2] + s.T[2], q[3] + s.T[3]>>
Local(s, p) == Back(s.R, <<p[1] - s.T[1], p[2] - s.T[2], p[3] - s.T[3]>>)
Big(p) == Max2(Abs(p[1]), Max2(Abs(p[2]), Abs(p[3])))
Tol(s, p) == 4 + (Len(s.R) + 1) * (Big(p) \div 150000)
Close(v, w, t) == Len(v) = 3 /\ \A i \in 1..3 : Near(v[i], w[i], t)
\* 1 inside, -1 outside, 0 closer than the tolerance to the border
Side(v, half, t) == IF Abs(v) <= half - t THEN 1 ELSE IF Abs(v) <= half + t THEN 0 ELSE -1
Edge(v, half) == IF Abs(v) <= half THEN 1 ELSE -1
Alpha(s) == IF s.k = "rect" THEN s.b[4] ELSE s.b[5]
Inside(s, p, t) ==
  IF s.k = "none" THEN 1
  ELSE LET q == IF Alpha(s) = 0 THEN p ELSE Turn(3, Cos(Alpha(s)), -Sin(Alpha(s)), p)
           tt == IF Alpha(s) = 0 THEN t ELSE t + 3 + Big(p) \div 150000
           S(v, half) == IF tt = 0 THEN Edge(v, half) ELSE Side(v, half, tt)
       IN IF s.k = "rect" THEN Min2(S(q[1], s.b[1] \div 2), Min2(S(q[2], s.b[2] \div 2), IF t = 0 THEN Edge(q[3], s.b[3]) ELSE Side(q[3], s.b[3], t)))
          ELSE LET y == Clamp(q[2], -(s.b[3] \div 2), s.b[3] \div 2)
                   slope == DivU(s.b[2] - s.b[1], s.b[3])                  \* scaled by 1e6
                   half == (s.b[1] + s.b[2]) \div 4 + MulU(y, slope) \div 2
               IN Min2(Side(q[1], half, tt + 3 + MulU(tt + 2, Abs(slope))),
                       Min2(S(q[2], s.b[3] \div 2), IF t = 0 THEN Edge(q[3], s.b[4]) ELSE Side(q[3], s.b[4], t)))
BoolOK(w, v) == w = 0 \/ v = (w = 1)
Unit(i) == [k \in 1..3 |-> IF k = i THEN 1000000 ELSE 0]
FrameOK(s, v) == /\ Close(v[1], s.T, 1)
                 /\ \A i \in 1..3 : Close(v[1 + i], Rotate(s.R, Unit(i)), 4 + 8 * Len(s.R)) /\ Close(v[4 + i], v[1 + i], 2)
------------------------------------------------------------------------------
Ops == {"surf", "id", "local", "global", "trip", "frame", "inl", "ing", "both", "store", "dup", "fill", "look", "filled", "name"}
Enabled(c) == CASE c.op \in {"surf", "store"} -> TRUE [] c.op \in {"id", "local", "global", "trip", "frame", "inl", "ing", "both"} -> c.s \in DOMAIN sf
                [] c.op = "dup" -> c.from \in DOMAIN st [] c.op = "fill" -> c.t \in DOMAIN st /\ \A k \in 1..Len(c.l) : c.l[k] \in DOMAIN sf
                [] OTHER -> c.t \in DOMAIN st
Empty == [on |-> FALSE, name |-> "", map |-> [x \in {} |-> 0]]
Ids(l) == {sf[l[k]].ID : k \in 1..Len(l)}
Distinct(l) == Cardinality(Ids(l)) = Len(l)
FillRes(c) == IF st[c.t].on \/ c.fail = 1 \/ ~Distinct(c.l) THEN "Exception" ELSE "ok"
\* a refused filling leaves the store as it was
Do(c) == CASE c.op = "surf" -> sf' = Put(sf, c.s, [ID |-> c.ID, T |-> c.T, R |-> c.R, k |-> c.k, b |-> c.b]) /\ st' = st
           [] c.op = "store" -> st' = Put(st, c.t, Empty) /\ sf' = sf
           [] c.op = "dup" -> st' = Put(st, c.t, st[c.from]) /\ sf' = sf
           [] c.op = "fill" -> sf' = sf /\ st' = (IF FillRes(c) # "ok" THEN st
                               ELSE [st EXCEPT ![c.t] = [on |-> TRUE, name |-> c.name, map |-> [i \in Ids(c.l) |-> c.l[CHOOSE k \in 1..Len(c.l) : sf[c.l[k]].ID = i]]]])
           [] OTHER -> UNCHANGED vars
ResOK(c) == LET x == c.r.x IN
  CASE c.op = "surf" -> x = "ok" /\ c.r.v = c.ID
    [] c.op = "id" -> x = "ok" /\ c.r.v = sf[c.s].ID
    [] c.op = "local" -> x = "ok" /\ LET s == sf[c.s] IN Close(c.r.v, Local(s, c.p), Tol(s, c.p) + Tol(s, s.T))
    [] c.op = "global" -> x = "ok" /\ LET s == sf[c.s] IN Close(c.r.v, Global(s, c.p), Tol(s, c.p))
    [] c.op = "trip" -> x = "ok" /\ Close(c.r.v[1], c.p, 1) /\ Close(c.r.v[2], c.p, 1)
    [] c.op = "frame" -> x = "ok" /\ FrameOK(sf[c.s], c.r.v)
    [] c.op = "inl" -> x = "ok" /\ BoolOK(Inside(sf[c.s], c.p, 0), c.r.v)
    [] c.op = "ing" -> x = "ok" /\ LET s == sf[c.s] IN BoolOK(Inside(s, Local(s, c.p), Tol(s, c.p) + Tol(s, s.T)), c.r.v)
    \* the same point asked in both frames
    [] c.op = "both" -> x = "ok" /\ LET s == sf[c.s] w == Inside(s, c.p, 2) IN w = 0 \/ c.r.v = <<IF w = 1 THEN 1 ELSE 0, IF w = 1 THEN 1 ELSE 0>>
    [] c.op \in {"store", "dup"} -> x = "ok"
    [] c.op = "fill" -> x = FillRes(c)
    [] c.op = "look" -> IF c.ID \in DOMAIN st[c.t].map THEN x = "ok" /\ c.r.v = st[c.t].map[c.ID] ELSE x \in {"Exception", "Unknown"}
    [] c.op = "filled" -> x = "ok" /\ c.r.v = st[c.t].on
    [] c.op = "name" -> IF st[c.t].on THEN x = "ok" /\ c.r.v = st[c.t].name ELSE x \in {"Exception", "Unknown"} \/ (x = "ok" /\ c.r.v = "STORE_NOT_YET_FILLED")
Init == sf = [x \in {} |-> 0] /\ st = [x \in {} |-> 0]
\* laws of the model: the frames are rigid and invertible, boundaries are centred, stores map identifiers to their surfaces
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Len2(a) == Hypot(Hypot(a[1], a[2]), a[3])
FrameLaws(s) == \A p \in {<<0, 0, 0>>, <<50000, -20000, 1000>>, <<-300000, 100000, 250000>>} :
   /\ Close(Local(s, Global(s, p)), p, 2 * Tol(s, p)) /\ Close(Global(s, Local(s, p)), p, 3 * Tol(s, p) + Tol(s, s.T))
   /\ Near(Len2(Sub3(Global(s, p), Global(s, <<0, 0, 0>>))), Len2(p), 60)
   /\ Inside(s, <<0, 0, 0>>, 0) = 1
   /\ (Inside(s, p, 0) # Inside(s, <<p[1], p[2], -p[3]>>, 0) => s.k = "none")
   /\ (s.k = "rect" => Inside(s, p, 0) = Inside(s, <<-p[1], -p[2], p[3]>>, 0))
StoreLaws(t) == /\ (t.on \/ t.map = [x \in {} |-> 0]) /\ \A i \in DOMAIN t.map : sf[t.map[i]].ID = i
Laws == (\A i \in DOMAIN sf : FrameLaws(sf[i])) /\ \A t \in DOMAIN st : StoreLaws(st[t])
=============================================================================
