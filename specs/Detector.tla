------------------------------ MODULE Detector ------------------------------
(* A detector description as a value, its XML file, and writing / reading.      *)
(* Properties P03 (global data), P04 (calorimeters), P05 (silicon), P06 (TPC),   *)
(* P15 (layer stacks), P18 (silicon layers), P22 (printing).                    *)
(*                                                                              *)
(* A document is [name, bf, secs, mats, det]; det maps a filled slot to its part *)
(* record.  Lengths and angles are fixed point (1e-5), user parameter values are *)
(* text tokens.  Writing turns a document into a file value (ToFile), reading    *)
(* turns a file value into a document (FromFile); calorimeter layers are stored  *)
(* in the file as run-length groups.  RoundTrip is the property.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Calos == {"EcalBarrel","EcalEndcap","EcalPlug","YokeBarrel","YokeEndcap","YokePlug","HcalBarrel","HcalEndcap","HcalRing","Lcal","LHcal","BeamCal"}
Ladders == {"VXD","SIT","SET"}
Forward == {"Lcal","LHcal","BeamCal"}
Slots == Calos \cup Ladders \cup {"FTD","SiPlanes","TrackerPlanes","TPC"}
Kind(s) == IF s \in Calos THEN "Cal" ELSE IF s \in Ladders THEN "Zpl" ELSE CASE s = "FTD" -> "Ftd" [] s = "SiPlanes" -> "Sip" [] s = "TrackerPlanes" -> "Trp" [] s = "TPC" -> "Tpc"
Put(f, k, v) == (k :> v) @@ f
Empty == [x \in {} |-> 0]
Toset(q) == {q[j] : j \in 1..Len(q)}
Abs(x) == IF x < 0 THEN -x ELSE x
VARIABLES mg, fl, seen
vars == <<mg, fl, seen>>
Fresh == [name |-> <<>>, bf |-> <<>>, secs |-> Empty, mats |-> Empty, det |-> Empty]

Given(n) == IF n = "" THEN <<>> ELSE <<n>>        \* no name is none

(* ---- user parameters: a sequence of <<kind, name, tokens>>, at most one per kind and name *)
HasPar(ps, k, n) == \E j \in 1..Len(ps) : ps[j][1] = k /\ ps[j][2] = n
WithBXA(s, ps) == IF s \in Forward /\ ~HasPar(ps, "double", "beam_crossing_angle")
                  THEN Append(ps, <<"double", "beam_crossing_angle", <<"0.000000000e+00">>>>) ELSE ps
ParsEq(a, b) == Len(a) = Len(b) /\ Toset(a) = Toset(b)

(* ---- layer stacks (P15): layer = <<thickness, cell0, cell1, absorber, position or Auto>> *)
Auto == -2000000000      \* behind the layer before
RECURSIVE Dist(_, _)
Dist(L, j) == IF L[j][5] # Auto THEN L[j][5] ELSE IF j = 1 THEN 0 ELSE Dist(L, j-1) + L[j-1][1]
RECURSIVE Dists(_, _, _)   \* all distances in one pass
Dists(L, j, acc) == IF j > Len(L) THEN acc
                    ELSE LET d == IF L[j][5] # Auto THEN L[j][5] ELSE IF j = 1 THEN 0 ELSE acc[j-1] + L[j-1][1]
                         IN Dists(L, j+1, Append(acc, d))
StackView(L) == LET D == Dists(L, 1, <<>>) IN [j \in 1..Len(L) |-> <<D[j], L[j][1], L[j][2], L[j][3], L[j][4]>>]
CalExtent(p) == LET n == Len(p.layers)  D == Dists(p.layers, 1, <<>>)  e == p.ext
                    end == IF n = 0 THEN (IF p.t = 0 THEN e[1] ELSE e[3]) ELSE D[n] + p.layers[n][1]
                IN IF p.t = 0 THEN <<e[1], end, 0, e[2]>> ELSE <<e[1], e[2], e[3], end>>
Inner(p) == IF p.t = 0 THEN p.ext[1] ELSE p.ext[3]
Contiguous(p) == LET D == Dists(p.layers, 1, <<>>) IN
                 \A j \in 1..Len(p.layers) : D[j] = IF j = 1 THEN Inner(p) ELSE D[j-1] + p.layers[j-1][1]

(* ---- file representation of calorimeters: groups <<repeat, thickness, cell0, cell1, absorber>> *)
Val(l) == <<l[1], l[2], l[3], l[4]>>
RECURSIVE Group(_, _, _)
Group(L, j, acc) == IF j > Len(L) THEN acc
                    ELSE IF acc # <<>> /\ SubSeq(acc[Len(acc)], 2, 5) = Val(L[j])
                         THEN Group(L, j+1, [acc EXCEPT ![Len(acc)][1] = @ + 1])
                         ELSE Group(L, j+1, Append(acc, <<1>> \o Val(L[j])))
RECURSIVE Unroll(_, _, _)
Unroll(G, j, acc) == IF j > Len(G) THEN acc
                     ELSE Unroll(G, j+1, acc \o [k \in 1..G[j][1] |-> SubSeq(G[j], 2, 5) \o <<Auto>>])
PartToFile(p) == IF p.k # "Cal" THEN p
                 ELSE [k |-> "CalF", t |-> p.t, sym |-> p.sym, phi0 |-> p.phi0, ext |-> p.ext, groups |-> Group(p.layers, 1, <<>>), pars |-> p.pars]
FileToPart(q) == IF q.k # "CalF" THEN q
                 ELSE LET U == Unroll(q.groups, 1, <<>>)
                          inner == IF q.t = 0 THEN q.ext[1] ELSE q.ext[3]
                      IN [k |-> "Cal", t |-> q.t, sym |-> q.sym, phi0 |-> q.phi0, ext |-> q.ext,
                          layers |-> IF U = <<>> THEN U ELSE [U EXCEPT ![1][5] = inner], pars |-> q.pars]
ToFile(d) == [name |-> IF d.name = <<>> THEN <<"Unknown">> ELSE d.name, bf |-> d.bf, secs |-> d.secs, mats |-> d.mats,
              det |-> [s \in DOMAIN d.det |-> PartToFile(d.det[s])]]
FromFile(f) == [f EXCEPT !.det = [s \in DOMAIN f.det |-> FileToPart(f.det[s])]]

(* ---- what a part shows *)
CalEq(p, v) == /\ v.k = "Cal" /\ v.t = p.t /\ v.sym = p.sym /\ v.phi0 = p.phi0
               /\ v.ext = CalExtent(p) /\ v.layers = StackView(p.layers) /\ ParsEq(v.pars, p.pars)
ZplEq(p, v) == v.k = "Zpl" /\ v.typ = p.typ /\ v.shell = p.shell /\ v.layers = p.layers /\ ParsEq(v.pars, p.pars)
FtdEq(p, v) == v.k = "Ftd" /\ v.n = Len(p.layers) /\ v.layers = p.layers \o p.layers /\ ParsEq(v.pars, p.pars)
SipEq(p, v) == v.k = "Sip" /\ v.id = p.id /\ v.typ = p.typ /\ v.num = p.num /\ v.layers = p.layers /\ v.dut = p.dut /\ ParsEq(v.pars, p.pars)
TrpEq(p, v) == v.k = "Trp" /\ v.id = p.id /\ v.typ = p.typ /\ v.num = p.num /\ v.layers = p.layers /\ ParsEq(v.pars, p.pars)
ModEq(m, w) == /\ w.id = m.id /\ w.ro = m.ro /\ w.off = m.off /\ w.z = m.z /\ w.ang = m.ang /\ w.bor = m.bor /\ ParsEq(w.pars, m.pars)
LType(k) == CASE k = "rect" -> 1 [] k = "fps" -> 2 [] k = "fpa" -> 3 [] k = "vers" -> 4
TpcEq(p, v) == /\ v.k = "Tpc" /\ v.drift = p.drift /\ v.vel = p.vel /\ v.coord = p.coord /\ Len(v.mods) = Len(p.mods)
               /\ \A j \in 1..Len(p.mods) : ModEq(p.mods[j], v.mods[j]) /\ v.mods[j].pads.type = LType(p.mods[j].layout.k)
               /\ ParsEq(v.pars, p.pars)
PartEq(p, v) == CASE p.k = "Cal" -> CalEq(p, v) [] p.k = "Zpl" -> ZplEq(p, v) [] p.k = "Ftd" -> FtdEq(p, v)
                  [] p.k = "Sip" -> SipEq(p, v) [] p.k = "Trp" -> TrpEq(p, v) [] p.k = "Tpc" -> TpcEq(p, v)
(* pad-plane geometry is learned from the first observation of a part and must not change on the way through a file *)
Near(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Abs(a[j] - b[j]) <= 2
PadsNear(a, b) == /\ a.type = b.type /\ a.coord = b.coord /\ a.shape = b.shape /\ a.npads = b.npads /\ a.nrows = b.nrows
                  /\ Near(a.ext, b.ext) /\ Len(a.rows) = Len(b.rows) /\ \A j \in 1..Len(a.rows) : Near(a.rows[j], b.rows[j])
Learned(v) == [pext |-> v.pext, mods |-> [j \in 1..Len(v.mods) |-> [pads |-> v.mods[j].pads, mext |-> v.mods[j].mext, lext |-> v.mods[j].lext]]]
LearnedNear(a, b) == /\ Near(a.pext, b.pext) /\ Len(a.mods) = Len(b.mods)
                     /\ \A j \in 1..Len(a.mods) : PadsNear(a.mods[j].pads, b.mods[j].pads) /\ Near(a.mods[j].mext, b.mods[j].mext) /\ Near(a.mods[j].lext, b.mods[j].lext)
PlaneKey(p) == [c |-> p.coord, m |-> [j \in 1..Len(p.mods) |-> <<p.mods[j].layout, p.mods[j].off, p.mods[j].z, p.mods[j].ang, p.mods[j].bor>>]]
SeenOf(p) == {x \in seen : x[1] = PlaneKey(p)}

(* ---- derived quantities of forward disks (P18); layer fields as in FtdEq *)
NDisk(p) == Len(p.layers)
Disk(p, i) == p.layers[IF i >= NDisk(p) THEN i - NDisk(p) + 1 ELSE i + 1]
InRange(p, i) == i >= 0 /\ i < 2 * NDisk(p)
SideOf(p, i) == IF i >= NDisk(p) THEN -1 ELSE 1
Par(k) == IF k % 2 = 0 THEN 1 ELSE -1
SupZ(p, i, k) == LET d == Disk(p, i) IN SideOf(p, i) * (d[8] + d[10] * Par(k) * d[9])
\* twice the sensor z, so that half thicknesses stay integers
SenZ2(p, i, k, s) == LET d == Disk(p, i)
                         back == d[3] = 1 /\ s > d[2] \div 2
                         toward == IF SupZ(p, i, k) > 0 THEN -1 ELSE 1
                     IN 2 * SupZ(p, i, k) + (IF back THEN -toward ELSE toward) * (d[12] + d[18])
FtdOK(p, e) == LET i == e.i IN
  IF ~InRange(p, i) THEN e.r.x = "std"
  ELSE CASE e.q = "supz" -> e.r.x = "ok" /\ e.r.v = SupZ(p, i, e.p)
         [] e.q = "senz" -> IF e.sn < 1 \/ e.sn > Disk(p, i)[2] THEN e.r.x = "Exception"
                            ELSE e.r.x = "ok" /\ Abs(2 * e.r.v - SenZ2(p, i, e.p, e.sn)) <= 1
         [] e.q = "phi" -> e.r.x = "ok" /\ Abs(e.r.v - (Disk(p, i)[6] + 2 * e.p * Disk(p, i)[5])) <= 1
         [] e.q = "maxr" -> e.r.x = "ok" /\ e.r.v = Disk(p, i)[11] + Disk(p, i)[15]
         [] e.q = "maxrs" -> e.r.x = "ok" /\ e.r.v = Disk(p, i)[17] + Disk(p, i)[21]
         [] e.q = "npet" -> e.r.x = "ok" /\ e.r.v = Disk(p, i)[1]

(* ---- transitions *)
Init == mg = Empty /\ fl = Empty /\ seen = {}
Changes == {"new","name","field","sec","mat","put","mod","grow"}
Files == {"write","read"}
Asks == {"same","obs","obsname","obsfield","obssec","obsmat","seckeys","matkeys","ftd","trpid"}
Ops == Changes \cup Files \cup Asks
Enabled(e) == CASE e.op = "new" -> TRUE
                [] e.op = "read" -> e.f \in DOMAIN fl
                [] e.op = "same" -> e.f \in DOMAIN fl /\ e.g \in DOMAIN fl
                [] e.op \in {"mod","grow"} -> e.m \in DOMAIN mg /\ e.s \in DOMAIN mg[e.m].det
                [] OTHER -> e.m \in DOMAIN mg
Upd(m, d) == mg' = Put(mg, m, d) /\ UNCHANGED <<fl, seen>>
Do(e) == CASE e.op = "new" -> Upd(e.m, Fresh)
           [] e.op = "name" -> Upd(e.m, [mg[e.m] EXCEPT !.name = Given(e.n)])
           [] e.op = "field" -> Upd(e.m, [mg[e.m] EXCEPT !.bf = <<[b |-> e.v.b, pars |-> e.v.pars]>>])
           [] e.op = "sec" -> Upd(e.m, [mg[e.m] EXCEPT !.secs = Put(@, e.n, e.v)])
           [] e.op = "mat" -> Upd(e.m, [mg[e.m] EXCEPT !.mats = IF e.n \in DOMAIN @ THEN @ ELSE Put(@, e.n, e.v)])
           [] e.op = "put" -> Upd(e.m, [mg[e.m] EXCEPT !.det = Put(@, e.s, [e.v EXCEPT !.pars = WithBXA(e.s, @)])])
           [] e.op = "mod" -> Upd(e.m, [mg[e.m] EXCEPT !.det = [@ EXCEPT ![e.s] = [@ EXCEPT !.layers[e.i + 1][e.part + 1][e.q + 1] = e.val]]])
           [] e.op = "grow" -> Upd(e.m, [mg[e.m] EXCEPT !.det = [@ EXCEPT ![e.s] = [@ EXCEPT !.layers = Append(@, e.v)]]])
           [] e.op = "write" -> fl' = Put(fl, e.f, ToFile(mg[e.m])) /\ UNCHANGED <<mg, seen>>
           [] e.op = "read" -> mg' = Put(mg, e.m, FromFile(fl[e.f])) /\ UNCHANGED <<fl, seen>>
           [] e.op = "obs" /\ e.s = "TPC" /\ "TPC" \in DOMAIN mg[e.m].det /\ e.r.x = "ok" ->
                LET p == mg[e.m].det["TPC"] IN
                /\ seen' = IF SeenOf(p) = {} THEN seen \cup {<<PlaneKey(p), Learned(e.r.v)>>} ELSE seen
                /\ UNCHANGED <<mg, fl>>
           [] OTHER -> UNCHANGED vars
Stored(f, n, e, Ok(_)) == IF n \in DOMAIN f THEN e.r.x = "ok" /\ Ok(f[n]) ELSE e.r.x = "Unknown"
ResOK(e) == LET d == mg[e.m] IN
  CASE e.op = "obs" -> Stored(d.det, e.s, e, LAMBDA p : PartEq(p, e.r.v) /\ (e.s = "TPC" => \A x \in SeenOf(p) : LearnedNear(x[2], Learned(e.r.v))))
    [] e.op = "obsname" -> IF d.name = <<>> THEN e.r.x = "Unknown" ELSE e.r.x = "ok" /\ e.r.v = d.name[1]
    [] e.op = "obsfield" -> IF d.bf = <<>> THEN e.r.x = "Unknown" ELSE e.r.x = "ok" /\ e.r.v.b = d.bf[1].b /\ ParsEq(e.r.v.pars, d.bf[1].pars)
    [] e.op = "obssec" -> Stored(d.secs, e.n, e, LAMBDA p : ParsEq(p, e.r.v))
    [] e.op = "obsmat" -> Stored(d.mats, e.n, e, LAMBDA p : e.r.v = <<e.n>> \o p)
    [] e.op = "seckeys" -> e.r.x = "ok" /\ Toset(e.r.v) = DOMAIN d.secs /\ Len(e.r.v) = Cardinality(DOMAIN d.secs)
    [] e.op = "matkeys" -> e.r.x = "ok" /\ Toset(e.r.v) = DOMAIN d.mats /\ Len(e.r.v) = Cardinality(DOMAIN d.mats)
    [] e.op = "ftd" -> Stored(d.det, "FTD", [r |-> [x |-> IF e.r.x = "Unknown" THEN "Unknown" ELSE "ok"]], LAMBDA p : FtdOK(p, e))
    [] e.op = "trpid" -> Stored(d.det, "TrackerPlanes", e, LAMBDA p :
                           LET hit == {j \in 1..Len(p.layers) : p.layers[j].id = e.i} IN
                           IF hit = {} THEN e.r.v = <<>> ELSE Len(e.r.v) = 1 /\ e.r.v[1] = p.layers[CHOOSE j \in hit : \A k \in hit : j <= k])
    [] e.op = "mat" -> IF e.n \in DOMAIN d.mats THEN e.r.x = "Exception" ELSE e.r.x = "ok"
    [] OTHER -> e.r.x = "ok"
ResOK2(e) == IF e.op \in {"new","read"} THEN e.r.x = "ok"
             ELSE IF e.op = "same" THEN e.r.x = "ok" /\ (fl[e.f] = fl[e.g] => e.r.v)
             ELSE ResOK(e)
(* ---- the round-trip property of the specification itself *)
ViewEqDoc(a, b) == /\ a.bf = b.bf /\ a.secs = b.secs /\ a.mats = b.mats /\ DOMAIN a.det = DOMAIN b.det
                   /\ \A s \in DOMAIN a.det : IF a.det[s].k = "Cal"
                        THEN /\ StackView(a.det[s].layers) = StackView(b.det[s].layers) /\ CalExtent(a.det[s]) = CalExtent(b.det[s])
                             /\ a.det[s].t = b.det[s].t /\ a.det[s].sym = b.det[s].sym /\ a.det[s].phi0 = b.det[s].phi0 /\ a.det[s].pars = b.det[s].pars
                        ELSE a.det[s] = b.det[s]
Storable(d) == \A s \in DOMAIN d.det : d.det[s].k = "Cal" => Contiguous(d.det[s])
RoundTrip(d) == Storable(d) => ViewEqDoc(FromFile(ToFile(d)), d)
Stable(d) == ToFile(FromFile(ToFile(d))) = ToFile(d)
=============================================================================
