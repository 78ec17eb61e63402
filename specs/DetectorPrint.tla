---------------------------- MODULE DetectorPrint ----------------------------
(* What printing a description has to show (P22).  The printed text is read back *)
(* into records: the detector name, one block per part shown (with the title it  *)
(* appears under), named sections and materials.  Printing shows every registered *)
(* part, nothing that is not registered, and - being a question - changes nothing. *)
EXTENDS Detector
Near6(a, b) == Abs(a - b) <= Abs(b) \div 100000 + 1          \* six significant digits
Nth(a, b, tol) == Abs(a - b) <= tol
Has(f, k) == k \in DOMAIN f
BagEq(a, b) == Len(a) = Len(b) /\ Toset(a) = Toset(b)
(* calorimeter: a layer may be left out only if it repeats the thicknesses of the one before *)
CalRow(p, D, j) == <<j - 1, p.layers[j][1], p.layers[j][4], D[j], p.layers[j][2], p.layers[j][3]>>
CalShown(p, b) == LET n == Len(p.layers)  D == Dists(p.layers, 1, <<>>)  x == CalExtent(p)
                      must == {j \in 1..n : j = n \/ p.layers[j][1] # (IF j = 1 THEN 0 ELSE p.layers[j-1][1]) \/ p.layers[j][4] # (IF j = 1 THEN 0 ELSE p.layers[j-1][4])} IN
  /\ b.kind = "Cal" /\ BagEq(b.pars, p.pars)
  /\ b.kv.t = p.t /\ b.kv.sym = p.sym /\ Near6(b.kv.phi0, p.phi0) /\ b.kv.n = n
  /\ Near6(b.kv.rMin, x[1]) /\ Near6(b.kv.rMax, x[2]) /\ Near6(b.kv.zMin, x[3]) /\ Near6(b.kv.zMax, x[4])
  /\ \A j \in must : \E k \in 1..Len(b.rows) : b.rows[k][1] = j - 1
  /\ \A k \in 1..Len(b.rows) : /\ b.rows[k][1] \in 0..n-1 /\ (k > 1 => b.rows[k][1] > b.rows[k-1][1])
                               /\ \A q \in 2..6 : Near6(b.rows[k][q], CalRow(p, D, b.rows[k][1] + 1)[q])
ZplShown(p, b) == /\ b.kind = "Zpl" /\ BagEq(b.pars, p.pars) /\ b.kv.typ = p.typ /\ b.kv.n = Len(p.layers)
                  /\ Near6(b.kv.s0, p.shell[1]) /\ Near6(b.kv.s1, p.shell[2]) /\ Near6(b.kv.s2, p.shell[3]) /\ Near6(b.kv.s3, p.shell[4])
                  /\ Len(b.rows) = Len(p.layers)
                  /\ \A j \in 1..Len(p.layers) : LET l == p.layers[j]  r == b.rows[j]  w == <<l[3], l[7], l[6], l[5], l[9], l[13], l[12], l[11]>> IN
                       r[1] = l[1] /\ \A q \in 1..8 : Nth(r[q+1], w[q], 501)
FtdShown(p, b) == /\ b.kind = "Ftd" /\ BagEq(b.pars, p.pars) /\ b.kv.n = Len(p.layers) /\ Len(b.rows) = Len(p.layers)
                  /\ \A j \in 1..Len(p.layers) : LET l == p.layers[j]  r == b.rows[j]  w == <<l[13], l[14], l[15], l[12], l[19], l[20], l[21], l[18]>> IN
                       r[1] = l[1] /\ \A q \in 1..8 : Nth(r[q+1], w[q], 501)
(* silicon planes: a column is <<ladder(1) or sensor(2), index, tolerance>> *)
SipCols == <<<<1,1,0>>,<<1,2,501>>,<<1,3,501>>,<<1,4,501>>,<<1,5,501>>,<<1,6,501>>,<<1,7,501>>,<<1,8,501>>,<<1,9,501>>,<<1,10,51>>,
             <<2,1,0>>,<<2,2,501>>,<<2,3,501>>,<<2,4,501>>,<<2,8,501>>,<<2,9,501>>,<<2,10,51>>,<<2,11,0>>,<<2,12,0>>,<<2,13,501>>,<<2,14,501>>,<<2,15,6>>,<<2,18,501>>,<<2,19,501>>,<<2,20,501>>,<<2,21,501>>>>
DutCols == <<<<1,1,0>>,<<1,2,501>>,<<1,3,501>>,<<1,4,501>>,<<1,5,501>>,<<1,6,501>>,<<1,7,51>>,
             <<2,1,0>>,<<2,2,501>>,<<2,3,501>>,<<2,4,501>>,<<2,5,501>>,<<2,6,501>>,<<2,7,51>>,<<2,8,0>>,<<2,9,0>>,<<2,10,501>>,<<2,11,501>>,<<2,13,501>>,<<2,14,501>>,<<2,15,501>>,<<2,16,501>>>>
RowOK(r, l, cols) == Len(r) = Len(cols) /\ \A q \in 1..Len(cols) : Nth(r[q], l[cols[q][1]][cols[q][2]], cols[q][3])
SipShown(p, b) == /\ b.kind = "Sip" /\ BagEq(b.pars, p.pars) /\ b.kv.id = p.id /\ b.kv.typ = p.typ /\ b.kv.num = p.num /\ b.kv.n = Len(p.layers)
                  /\ Len(b.rows) = Len(p.layers) + Len(p.dut)
                  /\ \A j \in 1..Len(p.layers) : RowOK(b.rows[j], p.layers[j], SipCols)
                  /\ \A j \in 1..Len(p.dut) : RowOK(b.rows[Len(p.layers) + j], p.dut[j], DutCols)
TrpTol(t) == IF t = "L" THEN <<>> ELSE <<50001,50001,50001,50001,50001,50001,501,501,501,501>> \o (IF t = "S" THEN <<0,0,6,6,6,6>> ELSE <<>>)
RECURSIVE TrpRows(_, _, _)
TrpRows(L, j, acc) == IF j > Len(L) THEN acc
                      ELSE TrpRows(L, j + 1, acc \o <<[t |-> "L", id |-> L[j].id, info |-> L[j].info, v |-> <<>>]>>
                             \o [k \in 1..Len(L[j].mat) |-> [t |-> "M", id |-> L[j].mat[k].id, info |-> L[j].mat[k].info, v |-> L[j].mat[k].v]]
                             \o [k \in 1..Len(L[j].sen) |-> [t |-> "S", id |-> L[j].sen[k].id, info |-> L[j].sen[k].info, v |-> L[j].sen[k].v]])
TrpShown(p, b) == LET R == TrpRows(p.layers, 1, <<>>) IN
                  /\ b.kind = "Trp" /\ BagEq(b.pars, p.pars) /\ b.kv.id = p.id /\ b.kv.num = p.num /\ b.kv.n = Len(p.layers) /\ Len(b.rows) = Len(R)
                  /\ \A j \in 1..Len(R) : /\ b.rows[j].t = R[j].t /\ b.rows[j].id = R[j].id /\ b.rows[j].info = R[j].info /\ Len(b.rows[j].v) = Len(R[j].v)
                                          /\ \A q \in 1..Len(R[j].v) : Nth(b.rows[j].v[q], R[j].v[q], TrpTol(R[j].t)[q])
TpcShown(p, b) == /\ b.kind = "Tpc" /\ BagEq(b.pars, p.pars) /\ Near6(b.kv.drift, p.drift) /\ b.kv.coord = p.coord /\ b.kv.n = Len(p.mods) /\ Len(b.mods) = Len(p.mods)
                  /\ \A j \in 1..Len(p.mods) : LET m == p.mods[j]  w == b.mods[j] IN
                       /\ BagEq(w.pars, m.pars) /\ Near6(w.kv.ro, m.ro) /\ Near6(w.kv.off[1], m.off[1]) /\ Near6(w.kv.off[2], m.off[2])
                       /\ Len(w.kv.z) = Len(m.z) /\ (m.z # <<>> => Near6(w.kv.z[1], m.z[1])) /\ Near6(w.kv.ang, m.ang)
                       /\ \A x \in SeenOf(p) : w.kv.npads = x[2].mods[j].pads.npads /\ w.kv.nrows = x[2].mods[j].pads.nrows
BFShown(f, b) == b.kind = "BF" /\ BagEq(b.pars, f.pars) /\ \A q \in 1..3 : Near6(b.kv.b[q], f.b[q])
Shown(p, b) == b.kind = p.k /\ CASE p.k = "Cal" -> CalShown(p, b) [] p.k = "Zpl" -> ZplShown(p, b) [] p.k = "Ftd" -> FtdShown(p, b)
                                 [] p.k = "Sip" -> SipShown(p, b) [] p.k = "Trp" -> TrpShown(p, b) [] p.k = "Tpc" -> TpcShown(p, b)
SlotOf(b) == IF b.title # "" THEN b.title ELSE IF b.kind = "Ftd" THEN "FTD" ELSE IF b.kind = "Tpc" THEN "TPC" ELSE ""
AllShown(d, v) ==
  /\ v.odd = <<>> /\ v.again
  /\ v.name = d.name
  /\ Toset(v.titles) \subseteq DOMAIN d.det                    \* no title for what is not there
  /\ \A j \in 1..Len(v.titles), k \in 1..Len(v.titles) : v.titles[j] = v.titles[k] => j = k
  /\ \A s \in DOMAIN d.det : \E k \in 1..Len(v.blocks) : SlotOf(v.blocks[k]) = s
  /\ (d.bf # <<>>) <=> \E k \in 1..Len(v.blocks) : v.blocks[k].kind = "BF"
  /\ \A k \in 1..Len(v.blocks) : LET b == v.blocks[k] IN
       IF b.kind = "BF" THEN d.bf # <<>> /\ BFShown(d.bf[1], b)
       ELSE IF SlotOf(b) # "" THEN SlotOf(b) \in DOMAIN d.det /\ Shown(d.det[SlotOf(b)], b)
       ELSE \E s \in DOMAIN d.det : Shown(d.det[s], b)
  /\ Len(v.secs) = Cardinality(DOMAIN d.secs) /\ {v.secs[k].title : k \in 1..Len(v.secs)} = DOMAIN d.secs
  /\ \A k \in 1..Len(v.secs) : BagEq(v.secs[k].pars, d.secs[v.secs[k].title])
  /\ Len(v.mats) = Cardinality(DOMAIN d.mats)
  /\ \A n \in DOMAIN d.mats : \E k \in 1..Len(v.mats) : v.mats[k] = <<n>> \o d.mats[n]
PrintOK(e) == LET d == mg[e.m] IN
  IF e.s = "all" THEN e.r.x = "ok" /\ AllShown(d, e.r.v)
  ELSE IF e.s = "BField" THEN IF d.bf = <<>> THEN e.r.x = "Unknown" ELSE e.r.x = "ok" /\ e.r.v.again /\ e.r.v.odd = <<>> /\ Len(e.r.v.blocks) = 1 /\ BFShown(d.bf[1], e.r.v.blocks[1])
  ELSE IF e.s \in DOMAIN d.det THEN e.r.x = "ok" /\ e.r.v.again /\ e.r.v.odd = <<>> /\ Len(e.r.v.blocks) = 1 /\ Shown(d.det[e.s], e.r.v.blocks[1])
  ELSE e.r.x = "Unknown"
=============================================================================
