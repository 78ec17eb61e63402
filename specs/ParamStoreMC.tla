---------------------------- MODULE ParamStoreMC ----------------------------
EXTENDS ParamStore, Json
CONSTANTS Objs, MKinds, MNames, MVals, MaxOps
VARIABLE hist
MInit == Init /\ hist = <<>>
Cmds == [op : {"new"}, o : Objs] \cup [op : {"copy","assign"}, o : Objs, from : Objs] \cup [op : {"drop"}, o : Objs]
        \cup [op : {"set"}, o : Objs, k : MKinds, n : MNames, v : MVals]
MNext == \E c \in Cmds : /\ Enabled(c)
                         /\ (c.op \in {"new","copy"} => c.o \notin DOMAIN st)
                         /\ Do(c) /\ hist' = Append(hist, c)
                         /\ Assert(Isolated(c) /\ KindIsolated(c), "isolation")
MView == st
Bound == Len(hist) <= MaxOps
Emit == PrintT("HIST" \o ToJson(hist'))
MValsDef == {<<"1">>, <<"2">>}
MSpec == MInit /\ [][MNext]_<<st, hist>>
TypeOK == \A o \in DOMAIN st : \A k \in Kinds : \A n \in DOMAIN st[o][k] : st[o][k][n] \in MVals
=============================================================================
