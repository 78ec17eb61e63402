----------------------------- MODULE DetectorMC -----------------------------
(* bounded model of documents, files, writing and reading; the command history  *)
(* carries value indices that the harness turns into concrete parts             *)
EXTENDS Detector, Json
CONSTANTS Mgrs, FileIds, MSlots, MNames, MaxOps
VARIABLE hist
CalVal(n) == [k |-> "Cal", t |-> 0, sym |-> 8, phi0 |-> 0, ext |-> <<10, 20>>, pars |-> <<>>,
              layers |-> IF n = 1 THEN <<<<1, 2, 2, 0, 10>>, <<1, 2, 2, 0, Auto>>, <<3, 2, 2, 0, Auto>>>> ELSE <<>>]
ZplVal(n) == [k |-> "Zpl", typ |-> n, shell |-> <<1>>, layers |-> <<<<n>>>>, pars |-> <<<<"int", "a", <<"1">>>>>>]
MVal(s, n) == IF Kind(s) = "Cal" THEN CalVal(n) ELSE ZplVal(n)
Vs == {1, 2}
Cmds == [op : {"new"}, m : Mgrs] \cup [op : {"put"}, m : Mgrs, s : MSlots, v : Vs] \cup [op : {"sec","mat"}, m : Mgrs, n : MNames, v : Vs]
        \cup [op : {"name"}, m : Mgrs, n : MNames] \cup [op : {"field"}, m : Mgrs, v : Vs]
        \cup [op : {"write","read"}, m : Mgrs, f : FileIds] \cup [op : {"same"}, f : FileIds, g : FileIds]
Real(c) == CASE c.op = "put" -> [c EXCEPT !.v = MVal(c.s, c.v)]
             [] c.op = "sec" -> [c EXCEPT !.v = <<<<"int", "a", <<ToString(c.v)>>>>>>]
             [] c.op = "mat" -> [c EXCEPT !.v = <<ToString(c.v)>>]
             [] c.op = "field" -> [c EXCEPT !.v = [b |-> <<c.v, 0, 0>>, pars |-> <<>>]]
             [] OTHER -> c
MInit == Init /\ hist = <<>>
MNext == \E c \in Cmds : /\ Enabled(c) /\ (c.op = "same" => c.f < c.g) /\ Do(Real(c)) /\ hist' = Append(hist, c)
MView == <<mg, fl>>
Bound == Len(hist) <= MaxOps
Emit == PrintT("HIST" \o ToJson(hist'))
MSpec == MInit /\ [][MNext]_<<vars, hist>>
FilesRoundTrip == \A m \in DOMAIN mg : RoundTrip(mg[m]) /\ Stable(mg[m])
\* what is in a file reads back as something that writes the same file
FileStable == \A f \in DOMAIN fl : ToFile(FromFile(fl[f])) = fl[f]
ForwardAngle == \A m \in DOMAIN mg : \A s \in Forward \cap DOMAIN mg[m].det : HasPar(mg[m].det[s].pars, "double", "beam_crossing_angle")
=============================================================================
