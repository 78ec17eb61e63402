---------------------------- MODULE XmlReaderMC ----------------------------
(* bounded model of files that appear, change, break and vanish under readers that may be asked again and again *)
EXTENDS XmlFile, Json
CONSTANTS Readers, FileIds, Types, MaxOps
VARIABLE hist
Node(t, a, c) == [t |-> t, a |-> a, c |-> c]
Det(n, ty) == Node("detector", [name |-> n, geartype |-> ty], <<[t |-> "parameter", a |-> [name |-> "p", type |-> "int"], c |-> <<>>, v |-> <<"7">>]>>)
Doc(ds) == Node("gear", Empty, <<Node("detectors", Empty, ds)>>)
Trees == { Doc(<<Det("a", "GearParameters")>>), Doc(<<Det("a", "GearParameters"), Det("b", "Own")>>), Node("gear", Empty, <<>>) }
W == [n \in {"a", "b"} |-> [has |-> <<>>]]
Cmds == [op : {"file"}, f : FileIds, k : {"xml"}, v : Trees, w : {W}, mayA : {FALSE}] \cup [op : {"file"}, f : FileIds, k : {"cut"}, v : {Doc(<<>>)}, w : {W}, mayA : {FALSE}]
        \cup [op : {"rmfile"}, f : FileIds] \cup [op : {"open"}, m : Readers, f : FileIds] \cup [op : {"parse"}, m : Readers]
        \cup [op : {"handler"}, n : Types, k : {"3"}]
\* a command is worth taking only if it is enabled and removing a file that is there
MInit == Init /\ XInit /\ hist = <<>>
MNext == \E c \in Cmds : /\ XEnabled(c) /\ (c.op = "rmfile" => c.f \in DOMAIN fx) /\ XDo(c) /\ hist' = Append(hist, c)
MView == <<mg, fx, rdr, reg>>
Bound == Len(hist) < MaxOps
Emit == PrintT("HIST" \o ToJson(hist'))
MSpec == MInit /\ [][MNext]_<<vars, xvars, hist>>
\* no reader hands out anything before a complete read; what it hands out is complete; it never changes afterwards
OnlyComplete == \A m \in DOMAIN rdr : rdr[m].done <=> m \in DOMAIN mg
Keeps == [][\A m \in DOMAIN rdr : (rdr[m].done /\ m \in DOMAIN rdr' /\ rdr'[m].done /\ m \in DOMAIN mg') => mg'[m] = mg[m]]_<<vars, xvars>>
Sections == \A m \in DOMAIN mg : DOMAIN mg[m].secs \in {{"a"}, {"a", "b"}}
=============================================================================
