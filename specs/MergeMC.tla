------------------------------ MODULE MergeMC ------------------------------
(* bounded model of mergers: files change under them, dominance is switched, merges follow merges *)
EXTENDS Merge, Json
CONSTANTS Mergers, FileIds, MaxOps
VARIABLE hist
Node(t, a, c) == [t |-> t, a |-> a, c |-> c]
Par1(n, v) == [t |-> "parameter", a |-> [name |-> n, type |-> "int"], c |-> <<>>, v |-> <<v>>]
Det(n, ps) == Node("detector", [name |-> n, geartype |-> "GearParameters"], ps)
Mat(n, A) == Node("material", [name |-> n, A |-> A, Z |-> "1.000000000e+00", density |-> "0.000000000e+00", radLength |-> "0.000000000e+00", intLength |-> "0.000000000e+00"], <<>>)
Doc(ds, rest) == Node("gear", Empty, <<Node("detectors", Empty, ds)>> \o rest)
Trees == { Doc(<<Det("a", <<Par1("p", "1"), Par1("q", "2")>>), Det("b", <<>>)>>, <<Node("materials", Empty, <<Mat("m", "1.500000000e+00")>>)>>),
           Doc(<<Det("c", <<Par1("p", "5")>>), Det("a", <<Par1("r", "3"), Par1("p", "4")>>)>>, <<Node("global", [detectorName |-> "g"], <<>>), Node("materials", Empty, <<Mat("n", "2.500000000e+00"), Mat("m", "3.500000000e+00")>>)>>),
           Doc(<<Det("a", <<Par1("p", "6")>>), Det("a", <<Par1("p", "7")>>)>>, <<Node("BField", [x |-> 0, y |-> 0, z |-> 400000], <<>>)>>),
           Node("gear", Empty, <<>>) }
W == [n \in {"a"} |-> [has |-> <<>>]]
Cmds == [op : {"file"}, f : FileIds, k : {"xml"}, v : Trees, w : {W}, mayA : {FALSE}] \cup [op : {"file"}, f : FileIds, k : {"cut"}, v : {Doc(<<>>, <<>>)}, w : {W}, mayA : {FALSE}]
        \cup [op : {"setfile"}, k : Mergers, w : {1, 2}, f : FileIds] \cup [op : {"dominant"}, k : Mergers, w : {1, 2}]
        \cup [op : {"merge"}, k : Mergers, f : FileIds]
MInit == Init /\ XInit /\ mr = [k \in Mergers |-> [f |-> << <<>>, <<>> >>, dom |-> 2]] /\ hist = <<>>
MNext == \E c \in Cmds : /\ (c.op = "file" => c.f \notin DOMAIN fx \/ Len(hist) > 2) /\ (IF c.op \in MrOps THEN MrEnabled(c) /\ MrDo(c) ELSE XDo(c) /\ UNCHANGED mr) /\ hist' = Append(hist, c)
MView == <<fx, mr>>
Bound == Len(hist) < MaxOps
Emit == PrintT("HIST" \o ToJson(hist'))
MSpec == MInit /\ [][MNext]_<<vars, xvars, mr, hist>>
(* laws of merging, checked on every pair of files a merger can hold *)
NamesIn(t, s) == IF HasK(t, s) THEN {Kid(t, s).c[j].a.name : j \in 1..Len(Kid(t, s).c)} ELSE {}
OneOf(t, s, n) == CHOOSE x \in Toset(Kid(t, s).c) : x.a.name = n
PV(x) == [n \in {y.a.name : y \in Toset(x.c)} |-> (CHOOSE y \in Toset(x.c) : y.a.name = n).v]
Laws == \A k \in Mergers : Mergeable(mr[k]) =>
   LET r == Rec(mr[k])[1].v  d == Dom(mr[k])[1].v  t == Merged(mr[k]) IN
   /\ t # Refusal =>
        /\ {t.c[j].t : j \in 1..Len(t.c)} = {r.c[j].t : j \in 1..Len(r.c)} \cup {d.c[j].t : j \in 1..Len(d.c)}
        /\ \A s \in {"detectors","materials"} : NamesIn(t, s) = NamesIn(r, s) \cup NamesIn(d, s)
        /\ \A n \in NamesIn(d, "detectors") : Count(OneOf(d, "detectors", n), Kid(d, "detectors").c) = 1 =>
             PV(OneOf(t, "detectors", n)) = (IF n \in NamesIn(r, "detectors") THEN Union2(PV(OneOf(r, "detectors", n)), PV(OneOf(d, "detectors", n))) ELSE PV(OneOf(d, "detectors", n)))
        /\ \A n \in NamesIn(d, "materials") : OneOf(t, "materials", n) = OneOf(d, "materials", n)
   /\ r = d => t = d
(* merging changes no file but the one it writes, and never the merger *)
Frame == [][\A k \in Mergers, f \in FileIds : LET c == hist'[Len(hist')] IN (c.op = "merge" => (mr' = mr /\ \A g \in DOMAIN fx : g # c.f => g \in DOMAIN fx' /\ fx'[g] = fx[g]))]_<<vars, xvars, mr, hist>>
=============================================================================
