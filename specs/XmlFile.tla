------------------------------ MODULE XmlFile ------------------------------
(* P07: what a description file means, when it is refused, and how often.          *)
(*                                                                                *)
(* A file is absent, unreadable ("bad": not XML), or a tree of elements           *)
(* [t |-> tag, a |-> attributes, c |-> children] (user parameters additionally    *)
(* carry their value tokens v).  Numbers are fixed point.  Refused(tree) says     *)
(* whether the file must be refused and Meaning(tree) which description it is.    *)
(* A reader refers to a file by name, reads it when first asked, keeps the        *)
(* description it made and hands out the same one from then on; a refused read    *)
(* leaves the reader as it was.  Element types are looked up in a registry of     *)
(* readers, which the user may extend or override.                                *)
EXTENDS Detector
VARIABLES fx, rdr, reg
xvars == <<fx, rdr, reg>>

(* ---------------- trees *)
HasA(n, k) == k \in DOMAIN n.a
Attr(n, k, d) == IF HasA(n, k) THEN n.a[k] ELSE d
Kids(n, t) == SelectSeq(n.c, LAMBDA x : x.t = t)
HasK(n, t) == \E j \in 1..Len(n.c) : n.c[j].t = t
Kid(n, t) == n.c[CHOOSE j \in 1..Len(n.c) : n.c[j].t = t /\ \A k \in 1..(j-1) : n.c[k].t # t]
All(n, S) == S \subseteq DOMAIN n.a
KidAll(n, t, S) == HasK(n, t) /\ All(Kid(n, t), S)
Get(n, q) == [j \in 1..Len(q) |-> n.a[q[j]]]
Dflt(n, q, d) == [j \in 1..Len(q) |-> Attr(n, q[j], d[j])]
MapSeq(F(_), q) == [j \in 1..Len(q) |-> F(q[j])]
Every(F(_), q) == \A j \in 1..Len(q) : F(q[j])

(* ---------------- user parameters *)
ParKind(t) == CASE t = "int" -> "int" [] t = "double" -> "double" [] t = "string" -> "string"
                [] t = "IntVec" -> "ints" [] t = "DoubleVec" -> "doubles" [] t = "StringVec" -> "strings" [] OTHER -> ""
ParOK(p) == All(p, {"name","type"})
Number(k) == k \in {"int","double"}
\* the value tokens of a list or a number; a text is one token, which may be empty
Toks(p) == SelectSeq(p.v, LAMBDA x : x # "")
RECURSIVE ParFold(_, _, _)
ParFold(q, j, acc) == IF j > Len(q) THEN acc
   ELSE LET p == q[j] IN
        IF ParKind(p.a.type) = "" \/ (Number(ParKind(p.a.type)) /\ Toks(p) = <<>>) THEN ParFold(q, j+1, acc)      \* no number is no parameter
        ELSE LET k == ParKind(p.a.type)
                 e == <<k, p.a.name, IF k = "string" THEN <<IF p.v = <<>> THEN "" ELSE p.v[1]>> ELSE IF Number(k) THEN <<Toks(p)[1]>> ELSE Toks(p)>>
                 rest == SelectSeq(acc, LAMBDA x : ~(x[1] = k /\ x[2] = p.a.name))
             IN ParFold(q, j+1, Append(rest, e))
Pars(n) == ParFold(Kids(n, "parameter"), 1, <<>>)
ParsOK(n) == Every(ParOK, Kids(n, "parameter"))

(* ---------------- calorimeters *)
CalLayerA == <<"thickness","cellSize0","cellSize1","absorberThickness">>
CalOK(n) == /\ HasA(n, "name") /\ KidAll(n, "layout", {"type","symmetry","phi0"}) /\ Kid(n, "layout").a.type \in {"barrel","endcap"}
            /\ KidAll(n, "dimensions", IF Kid(n, "layout").a.type = "barrel" THEN {"inner_r","outer_z"} ELSE {"inner_r","outer_r","inner_z"})
            /\ \A j \in 1..Len(n.c) : n.c[j].t = "layer" => All(n.c[j], {"repeat","thickness","absorberThickness","cellSize0","cellSize1"})
            /\ ParsOK(n)
CalSlot(nm, b) == LET has(w) == w \in Toset(nm.has) IN
   IF has("ecal") THEN (IF has("plug") THEN "EcalPlug" ELSE IF b THEN "EcalBarrel" ELSE "EcalEndcap")
   ELSE IF has("yoke") THEN (IF has("plug") THEN "YokePlug" ELSE IF b THEN "YokeBarrel" ELSE "YokeEndcap")
   ELSE IF has("lcal") THEN "Lcal" ELSE IF has("lhcal") THEN "LHcal" ELSE IF has("beamcal") THEN "BeamCal"
   ELSE IF has("hcal") THEN (IF has("ring") THEN "HcalRing" ELSE IF b THEN "HcalBarrel" ELSE "HcalEndcap") ELSE ""
CalVal(n) == LET b == Kid(n, "layout").a.type = "barrel"  d == Kid(n, "dimensions")
                 G == MapSeq(LAMBDA l : <<l.a.repeat>> \o Get(l, CalLayerA), Kids(n, "layer"))
             IN FileToPart([k |-> "CalF", t |-> IF b THEN 0 ELSE 1, sym |-> Kid(n, "layout").a.symmetry, phi0 |-> Kid(n, "layout").a.phi0,
                            ext |-> IF b THEN Get(d, <<"inner_r","outer_z">>) ELSE Get(d, <<"inner_r","outer_r","inner_z">>), groups |-> G, pars |-> Pars(n)])

(* ---------------- ladder detectors *)
ZQ == <<"distance","offset","thickness","length","width","radLength">>
Techs == {"CCD","CMOS","HYBRID"}
TypeKid(n) == IF HasK(n, "type") THEN Kid(n, "type") ELSE Kid(n, "vxdType")
ShellQ == <<"innerRadius","outerRadius","halfLength","gap","radLength">>
ZplOK(n) == /\ HasA(n, "name") /\ (HasK(n, "type") \/ HasK(n, "vxdType")) /\ HasA(TypeKid(n), "technology") /\ KidAll(n, "shell", Toset(ShellQ)) /\ HasK(n, "layers")
            /\ Every(LAMBDA l : All(l, {"nLadders","phi0"}) /\ KidAll(l, "ladder", Toset(ZQ)) /\ KidAll(l, "sensitive", Toset(ZQ)), Kids(Kid(n, "layers"), "layer"))
            /\ ParsOK(n)
ZplEnum(n) == TypeKid(n).a.technology \in Techs
ZplSlot(nm) == IF "vxd" \in Toset(nm.has) THEN "VXD" ELSE IF "sit" \in Toset(nm.has) THEN "SIT" ELSE IF "set" \in Toset(nm.has) THEN "SET" ELSE ""
ZplVal(n) == [k |-> "Zpl", typ |-> CASE TypeKid(n).a.technology = "CCD" -> 1 [] TypeKid(n).a.technology = "CMOS" -> 2 [] OTHER -> 3,
              shell |-> Get(Kid(n, "shell"), ShellQ),
              layers |-> MapSeq(LAMBDA l : <<l.a.nLadders, l.a.phi0>> \o Get(Kid(l, "ladder"), ZQ) \o Get(Kid(l, "sensitive"), ZQ), Kids(Kid(n, "layers"), "layer")), pars |-> Pars(n)]

(* ---------------- forward disks *)
FQ == <<"rInner","thickness","lengthMin","lengthMax","width","radLength">>
FH == <<"petalOpenningAngle","phi0","alpha","zposition","zoffset","zsign0">>
FtdOK1(n) == /\ HasA(n, "name") /\ HasK(n, "layers")
            /\ Every(LAMBDA l : All(l, {"nPetals","nSensors","isDoubleSided","sensorType"} \cup Toset(FH)) /\ KidAll(l, "support", Toset(FQ)) /\ KidAll(l, "sensitive", Toset(FQ)), Kids(Kid(n, "layers"), "layer"))
            /\ ParsOK(n)
FtdEnum(n) == Every(LAMBDA l : l.a.sensorType \in {"PIXEL","STRIP"}, Kids(Kid(n, "layers"), "layer"))
FtdVal(n) == [k |-> "Ftd", layers |-> MapSeq(LAMBDA l : <<l.a.nPetals, l.a.nSensors, l.a.isDoubleSided, IF l.a.sensorType = "PIXEL" THEN 1 ELSE 2>>
                \o Get(l, FH) \o Get(Kid(l, "support"), FQ) \o Get(Kid(l, "sensitive"), FQ), Kids(Kid(n, "layers"), "layer")), pars |-> Pars(n)]

(* ---------------- silicon planes *)
One == 100000
Pos3 == <<"positionX","positionY","positionZ">>
Rot3 == <<"rotationXY","rotationZX","rotationZY">>
Siz == <<"sizeX","sizeY","thickness">>
Rot4 == <<"rotation1","rotation2","rotation3","rotation4">>
Pix == <<"npixelX","npixelY","pitchX","pitchY">>
Rot4D == <<One, 0, 0, One>>
SipLadN == {"ID","radLength"} \cup Toset(Pos3) \cup Toset(Siz)
SipSenN == SipLadN \cup Toset(Pix) \cup {"resolution"}
SipWith(n) == Kid(n, "siplanesType").a.type = "TelescopeWithDUT"
SipDut(n) == Kid(n, "dut")
SipOK(n) == /\ HasA(n, "name") /\ KidAll(n, "siplanesID", {"ID"}) /\ KidAll(n, "siplanesType", {"type"}) /\ KidAll(n, "siplanesNumber", {"number"}) /\ HasK(n, "layers")
            /\ (SipWith(n) => HasK(n, "dut") /\ KidAll(SipDut(n), "dut_ladder", SipLadN) /\ KidAll(SipDut(n), "dut_sensitive", SipSenN))
            /\ Every(LAMBDA l : KidAll(l, "ladder", SipLadN) /\ KidAll(l, "sensitive", SipSenN), Kids(Kid(n, "layers"), "layer"))
            /\ ParsOK(n)
SipEnum(n) == Kid(n, "siplanesType").a.type \in {"TelescopeWithDUT","TelescopeWithoutDUT"}
Resol(s, k) == IF HasA(s, k) /\ s.a[k] >= 0 THEN s.a[k] ELSE s.a.resolution
SipLad(l) == <<l.a.ID>> \o Get(l, Pos3) \o Dflt(l, Rot3, <<0,0,0>>) \o Get(l, Siz) \o <<l.a.radLength>>
SipSen(s) == <<s.a.ID>> \o Get(s, Pos3) \o Dflt(s, Rot3, <<0,0,0>>) \o Get(s, Siz) \o Get(s, Pix)
             \o <<s.a.resolution, Resol(s, "resolutionX"), Resol(s, "resolutionY")>> \o Dflt(s, Rot4, Rot4D) \o <<s.a.radLength>>
SipVal(n) == [k |-> "Sip", id |-> Kid(n, "siplanesID").a.ID, typ |-> IF SipWith(n) THEN 1 ELSE 2, num |-> Kid(n, "siplanesNumber").a.number,
              layers |-> MapSeq(LAMBDA l : <<SipLad(Kid(l, "ladder")), SipSen(Kid(l, "sensitive"))>>, Kids(Kid(n, "layers"), "layer")),
              dut |-> IF ~SipWith(n) THEN <<>> ELSE LET a == Kid(SipDut(n), "dut_ladder")  s == Kid(SipDut(n), "dut_sensitive") IN
                 << <<  <<a.a.ID>> \o Get(a, Pos3) \o Get(a, Siz) \o <<a.a.radLength>>,
                        <<s.a.ID>> \o Get(s, Pos3) \o Get(s, Siz) \o Get(s, Pix) \o <<s.a.resolution>> \o Dflt(s, Rot4, Rot4D) \o <<s.a.radLength>> >> >>,
              pars |-> Pars(n)]

(* ---------------- tracker planes *)
TrpQ == Pos3 \o Rot3 \o Siz \o <<"radLength">>
TrpD == <<0,0,0,0,0,0,One,One,0,0>>
TrpOK(n) == /\ HasA(n, "name") /\ KidAll(n, "LayoutID", {"ID"}) /\ KidAll(n, "LayoutNumberOfLayers", {"number"}) /\ (HasK(n, "LayoutType") => HasA(Kid(n, "LayoutType"), "type"))
            /\ HasK(n, "layers")
            /\ Every(LAMBDA l : HasA(l, "ID") /\ \A j \in 1..Len(l.c) : l.c[j].t \in {"ladder","sensitive"} => HasA(l.c[j], "ID"), Kids(Kid(n, "layers"), "layer"))
            /\ ParsOK(n)
TrpVal(n) == [k |-> "Trp", id |-> Kid(n, "LayoutID").a.ID, typ |-> IF HasK(n, "LayoutType") THEN Kid(n, "LayoutType").a.type ELSE 0, num |-> Kid(n, "LayoutNumberOfLayers").a.number,
              layers |-> MapSeq(LAMBDA l : [id |-> l.a.ID, info |-> Attr(l, "info", ""),
                 mat |-> MapSeq(LAMBDA m : [id |-> m.a.ID, info |-> Attr(m, "info", ""), v |-> Dflt(m, TrpQ, TrpD)], Kids(l, "ladder")),
                 sen |-> MapSeq(LAMBDA m : [id |-> m.a.ID, info |-> Attr(m, "info", ""), v |-> Dflt(m, TrpQ \o Pix \o <<"resolutionX","resolutionY">>, TrpD \o <<1,1,0,0,0,0>>)], Kids(l, "sensitive"))],
                 Kids(Kid(n, "layers"), "layer")), pars |-> Pars(n)]

(* ---------------- TPC *)
TwoPi == 628319
LayKind(t) == CASE t = "RectangularPadRowLayout" -> "rect" [] t = "FixedPadSizeDiskLayout" -> "fps" [] t = "FixedPadAngleDiskLayout" -> "fpa"
                [] t = "VersatileDiskRowLayout" -> "vers" [] OTHER -> ""
LayCoord(k) == IF k = "rect" THEN 1 ELSE 2
LayOK(n) == /\ HasA(n, "type")
            /\ LET rows == Kids(n, "row") IN
               CASE LayKind(n.a.type) = "rect" -> All(n, {"xMin","xMax","yMin"}) /\ Every(LAMBDA r : All(r, {"nPad","padWidth","padHeight"}), rows)
                 [] LayKind(n.a.type) = "fps" -> All(n, {"rMin","rMax","padHeight","padWidth","maxRow","padGap"})
                 [] LayKind(n.a.type) = "fpa" -> All(n, {"rMin","rMax","nRow","phiMin","phiMax","nPadsInRow"})
                 [] LayKind(n.a.type) = "vers" -> HasA(n, "rMin") /\ Every(LAMBDA r : All(r, {"nPad","padPitch","rowHeight"}), rows)
                 [] OTHER -> FALSE
RectRow(r) == <<Attr(r, "repeat", 1), r.a.nPad, r.a.padWidth, r.a.padHeight>> \o Dflt(r, <<"rowHeight","leftOffset","rightOffset">>, <<0,0,0>>)
VersRow(r) == <<r.a.nPad, r.a.padPitch, r.a.rowHeight>> \o Dflt(r, <<"offset","padWidth","padHeight","repeat">>, <<0,0,0,1>>)
LayVal(n) == LET k == LayKind(n.a.type) IN
   CASE k = "rect" -> [k |-> k, a |-> Get(n, <<"xMin","xMax","yMin">>), n |-> <<Attr(n, "repeatRows", 1)>>, rows |-> MapSeq(RectRow, Kids(n, "row"))]
     [] k = "fps" -> [k |-> k, a |-> Get(n, <<"rMin","rMax","padHeight","padWidth","padGap">>) \o <<Attr(n, "phiMax", TwoPi)>>, n |-> Get(n, <<"maxRow">>), rows |-> <<>>]
     [] k = "fpa" -> [k |-> k, a |-> Get(n, <<"rMin","rMax","phiMin","phiMax">>), n |-> Get(n, <<"nRow","nPadsInRow">>), rows |-> <<>>]
     [] k = "vers" -> [k |-> k, a |-> Get(n, <<"rMin">>), n |-> <<>>, rows |-> MapSeq(VersRow, Kids(n, "row"))]
\* values no layout can have
LayEnum(n) == LET v == LayVal(n) IN
   CASE v.k = "rect" -> v.n[1] > 0 /\ Every(LAMBDA r : r[1] > 0 /\ r[2] > 0 /\ \A j \in 3..7 : r[j] >= 0, v.rows)
     [] v.k = "fps" -> v.a[3] > 0 /\ v.a[4] > 0
     [] v.k = "fpa" -> v.n[1] > 0 /\ v.n[2] > 0
     [] OTHER -> Every(LAMBDA r : r[1] > 0 /\ r[3] > 0 /\ r[5] >= 0 /\ r[7] > 0, v.rows)
(* a module, its defaults element (a sequence of at most one) and the running identifier *)
Src(m, d, t) == IF HasK(m, t) THEN <<Kid(m, t)>> ELSE IF d # <<>> /\ HasK(d[1], t) THEN <<Kid(d[1], t)>> ELSE <<>>
SrcOK(m, d, t, S) == LET s == Src(m, d, t) IN s = <<>> \/ All(s[1], S)
ModOK(m, d) == /\ Src(m, d, "readoutFrequency") # <<>> /\ Src(m, d, "PadRowLayout2D") # <<>> /\ LayOK(Src(m, d, "PadRowLayout2D")[1])
               /\ \A t \in {"readoutFrequency","moduleID","zPosition","angle","enlargeActiveAreaBy"} : SrcOK(m, d, t, {"value"})
               /\ SrcOK(m, d, "offset", {"x_r","y_phi"}) /\ ParsOK(m)
ModVal(m, d, id) == LET one(t, x) == IF Src(m, d, t) = <<>> THEN x ELSE Src(m, d, t)[1].a.value  z == Src(m, d, "zPosition")  o == Src(m, d, "offset") IN
   [id |-> one("moduleID", id), ro |-> one("readoutFrequency", 0), layout |-> LayVal(Src(m, d, "PadRowLayout2D")[1]),
    off |-> IF o = <<>> THEN <<0,0>> ELSE Get(o[1], <<"x_r","y_phi">>), z |-> IF z = <<>> THEN <<>> ELSE <<z[1].a.value>>,
    ang |-> one("angle", 0), bor |-> one("enlargeActiveAreaBy", 0), pars |-> Pars(m)]
(* walk over one <modules> section: defaults apply to what follows; the first defaults element also to what precedes it *)
RECURSIVE ModWalk(_, _, _, _, _)
ModWalk(sec, j, d, id, acc) == IF j > Len(sec.c) THEN acc
   ELSE LET e == sec.c[j] IN
        IF e.t = "default" THEN ModWalk(sec, j+1, <<e>>, id, acc)
        ELSE IF e.t = "module" THEN ModWalk(sec, j+1, d, id+1, Append(acc, <<e, d, id>>))
        ELSE ModWalk(sec, j+1, d, id, acc)
ModsIn(sec) == ModWalk(sec, 1, IF HasK(sec, "default") THEN <<Kid(sec, "default")>> ELSE <<>>, Attr(sec, "moduleIDStartCount", 0), <<>>)
RECURSIVE Flat(_, _)
Flat(q, j) == IF j > Len(q) THEN <<>> ELSE q[j] \o Flat(q, j+1)
Mods(n) == Flat(MapSeq(ModsIn, Kids(n, "modules")), 1)
OldTpc(n) == ~HasK(n, "coordinateType")
TpcOK(n) == /\ HasA(n, "name") /\ KidAll(n, "maxDriftLength", {"value"}) /\ ParsOK(n)
            /\ IF OldTpc(n) THEN HasK(n, "PadRowLayout2D") /\ LayOK(Kid(n, "PadRowLayout2D")) /\ KidAll(n, "driftVelocity", {"value"}) /\ KidAll(n, "readoutFrequency", {"value"})
               ELSE /\ KidAll(n, "coordinateType", {"value"}) /\ Kid(n, "coordinateType").a.value \in {"cartesian","polar"}
                    /\ (HasK(n, "driftVelocity") => HasA(Kid(n, "driftVelocity"), "value"))
                    /\ Every(LAMBDA m : ModOK(m[1], m[2]), Mods(n))
(* identifiers must be unique and layouts possible: otherwise refused, by any gear exception *)
TpcEnum(n) == IF OldTpc(n) THEN LayEnum(Kid(n, "PadRowLayout2D"))
              ELSE LET M == Mods(n)  ids == [j \in 1..Len(M) |-> ModVal(M[j][1], M[j][2], M[j][3]).id] IN
                   Cardinality(Toset(ids)) = Len(ids) /\ \A j \in 1..Len(M) : LayEnum(Src(M[j][1], M[j][2], "PadRowLayout2D")[1])
TpcVal(n) == IF OldTpc(n) THEN LET l == LayVal(Kid(n, "PadRowLayout2D")) IN
                  [k |-> "Tpc", drift |-> Kid(n, "maxDriftLength").a.value, vel |-> Kid(n, "driftVelocity").a.value, coord |-> LayCoord(l.k),
                   mods |-> <<[id |-> 0, ro |-> Kid(n, "readoutFrequency").a.value, layout |-> l, off |-> <<0,0>>, z |-> <<>>, ang |-> 0, bor |-> 0, pars |-> <<>>]>>, pars |-> Pars(n)]
             ELSE [k |-> "Tpc", drift |-> Kid(n, "maxDriftLength").a.value, vel |-> IF HasK(n, "driftVelocity") THEN Kid(n, "driftVelocity").a.value ELSE 0,
                   coord |-> IF Kid(n, "coordinateType").a.value = "cartesian" THEN 1 ELSE 2,
                   mods |-> MapSeq(LAMBDA m : ModVal(m[1], m[2], m[3]), Mods(n)), pars |-> Pars(n)]

(* ---------------- the whole file *)
(* the registry of element readers: built-in kinds, "" = none, "C<k>" = the user's own reader number k.
   All of them are told the element; the user's reader adds a section named after the detector holding its parameters and its number. *)
Builtin == [t \in {"GearParameters","TPCParameters","CalorimeterParameters","ZPlanarParameters","FTDParameters","TrackerPlanesParameters","SiPlanesParameters"} |-> t]
Alias(t) == IF t = "VXDParameters" THEN "ZPlanarParameters" ELSE t
Reader(rg, t) == IF Alias(t) \in DOMAIN rg THEN rg[Alias(t)] ELSE ""
Typed(n) == HasA(n, "geartype")
DetOK(rg, n) == HasA(n, "name") /\ (~Typed(n) \/ LET r == Reader(rg, n.a.geartype) IN
   CASE r = "" -> FALSE [] r = "CalorimeterParameters" -> CalOK(n) [] r = "ZPlanarParameters" -> ZplOK(n) [] r = "FTDParameters" -> FtdOK1(n)
     [] r = "SiPlanesParameters" -> SipOK(n) [] r = "TrackerPlanesParameters" -> TrpOK(n) [] r = "TPCParameters" -> TpcOK(n) [] OTHER -> ParsOK(n))
DetEnum(rg, n) == ~Typed(n) \/ LET r == Reader(rg, n.a.geartype) IN
   CASE r = "ZPlanarParameters" -> ZplEnum(n) [] r = "FTDParameters" -> FtdEnum(n) [] r = "SiPlanesParameters" -> SipEnum(n) [] r = "TPCParameters" -> TpcEnum(n) [] OTHER -> TRUE
MatA == <<"A","Z","density","radLength","intLength">>
Dets(t) == Kids(Kid(t, "detectors"), "detector")
Mats(t) == IF HasK(t, "materials") THEN Kids(Kid(t, "materials"), "material") ELSE <<>>
RootOK(rg, t) == /\ (HasK(t, "global") => HasA(Kid(t, "global"), "detectorName")) /\ HasK(t, "detectors")
                 /\ (HasK(t, "BField") => All(Kid(t, "BField"), {"x","y","z"}) /\ ParsOK(Kid(t, "BField")))
                 /\ (HasK(t, "GDMLFile") => HasA(Kid(t, "GDMLFile"), "name"))
                 /\ Every(LAMBDA n : DetOK(rg, n), Dets(t)) /\ Every(LAMBDA m : All(m, {"name"} \cup Toset(MatA)), Mats(t))
(* well-formed but with a value that is not allowed: any gear exception will do *)
RootEnum(rg, t) == /\ Every(LAMBDA n : DetEnum(rg, n), Dets(t))
                   /\ LET M == Mats(t) IN \A j, k \in 1..Len(M) : j # k => M[j].a.name # M[k].a.name
(* calorimeter and ladder detectors go to the slot their name speaks of: the event carries, per name, the words it contains *)
SlotOf(rg, n, words) == LET r == Reader(rg, n.a.geartype) IN
   CASE r = "CalorimeterParameters" -> CalSlot(words[n.a.name], Kid(n, "layout").a.type = "barrel")
     [] r = "ZPlanarParameters" -> ZplSlot(words[n.a.name]) [] r = "FTDParameters" -> "FTD" [] r = "SiPlanesParameters" -> "SiPlanes"
     [] r = "TrackerPlanesParameters" -> "TrackerPlanes" [] r = "TPCParameters" -> "TPC" [] OTHER -> "*"
PartVal(rg, n) == LET r == Reader(rg, n.a.geartype) IN
   CASE r = "CalorimeterParameters" -> CalVal(n) [] r = "ZPlanarParameters" -> ZplVal(n) [] r = "FTDParameters" -> FtdVal(n)
     [] r = "SiPlanesParameters" -> SipVal(n) [] r = "TrackerPlanesParameters" -> TrpVal(n) [] r = "TPCParameters" -> TpcVal(n)
     [] r = "GearParameters" -> Pars(n) [] OTHER -> Append(SelectSeq(Pars(n), LAMBDA p : ~(p[1] = "int" /\ p[2] = "reader")), <<"int", "reader", <<r>>>>)
RECURSIVE DetFold(_, _, _, _, _)
DetFold(rg, w, q, j, doc) == IF j > Len(q) THEN doc
   ELSE IF ~Typed(q[j]) THEN DetFold(rg, w, q, j+1, doc)
   ELSE LET s == SlotOf(rg, q[j], w)  v == PartVal(rg, q[j]) IN
        DetFold(rg, w, q, j+1, IF s = "" THEN doc ELSE IF s = "*" THEN [doc EXCEPT !.secs = Put(@, q[j].a.name, v)]
                               ELSE [doc EXCEPT !.det = Put(@, s, [v EXCEPT !.pars = WithBXA(s, @)])])
Meaning(rg, t, w) == LET M == Mats(t) IN
   DetFold(rg, w, Dets(t), 1,
     [name |-> IF HasK(t, "global") THEN Given(Kid(t, "global").a.detectorName) ELSE <<>>,
      bf |-> IF HasK(t, "BField") THEN <<[b |-> Get(Kid(t, "BField"), <<"x","y","z">>), pars |-> Pars(Kid(t, "BField"))]>> ELSE <<>>,
      secs |-> Empty, det |-> Empty,
      mats |-> [n \in {M[j].a.name : j \in 1..Len(M)} |-> Get(M[CHOOSE j \in 1..Len(M) : M[j].a.name = n], MatA)]])

(* ---------------- transitions of files and readers *)
XInit == fx = Empty /\ rdr = Empty /\ reg = Builtin
XOps == {"file","rmfile","open","parse","handler","handled"}
\* outcome of reading a file now: "ok", "P" parse error, "A" any gear error
Verdict(f) == IF f \notin DOMAIN fx THEN "P" ELSE IF fx[f].k # "xml" THEN "P"
              ELSE IF ~RootOK(reg, fx[f].v) THEN (IF fx[f].mayA THEN "A" ELSE "P")
              ELSE IF ~RootEnum(reg, fx[f].v) THEN "A" ELSE "ok"
XEnabled(e) == CASE e.op = "parse" -> e.m \in DOMAIN rdr [] OTHER -> TRUE
XDo(e) == CASE e.op = "file" -> fx' = Put(fx, e.f, [k |-> e.k, v |-> e.v, w |-> e.w, mayA |-> e.mayA]) /\ UNCHANGED <<mg, fl, seen, rdr, reg>>
            [] e.op = "rmfile" -> fx' = [x \in DOMAIN fx \ {e.f} |-> fx[x]] /\ UNCHANGED <<mg, fl, seen, rdr, reg>>
            [] e.op = "open" -> rdr' = Put(rdr, e.m, [f |-> e.f, done |-> FALSE]) /\ mg' = [x \in DOMAIN mg \ {e.m} |-> mg[x]] /\ UNCHANGED <<fl, seen, fx, reg>>
            [] e.op = "handler" -> reg' = Put(reg, e.n, e.k) /\ UNCHANGED <<mg, fl, seen, fx, rdr>>
            [] e.op = "parse" -> LET r == rdr[e.m] IN
                 IF r.done \/ Verdict(r.f) # "ok" THEN UNCHANGED <<vars, xvars>>
                 ELSE /\ mg' = Put(mg, e.m, Meaning(reg, fx[r.f].v, fx[r.f].w))
                      /\ rdr' = [rdr EXCEPT ![e.m].done = TRUE] /\ UNCHANGED <<fl, seen, fx, reg>>
            [] OTHER -> UNCHANGED <<vars, xvars>>
(* value TRUE: the description handed out is the one handed out before (or the first) *)
XResOK(e) == CASE e.op = "parse" -> LET r == rdr[e.m] IN
                    IF r.done THEN e.r.x = "ok" /\ e.r.v
                    ELSE CASE Verdict(r.f) = "ok" -> e.r.x = "ok" /\ e.r.v [] Verdict(r.f) = "P" -> e.r.x = "Parse" [] OTHER -> e.r.x \in {"Parse","Exception"}
               [] e.op = "handled" -> e.r.x = "ok" /\ e.r.v = (e.n \in DOMAIN reg)
               [] OTHER -> e.r.x = "ok"
=============================================================================
