------------------------------- MODULE TPCMC -------------------------------
(* all short histories of placing, copying and destroying modules and of filling and copying TPCs *)
EXTENDS TPC, Json
CONSTANTS Ms, Ts, MaxOps, Mods, Places, Zs
VARIABLE hist
Lays == <<[k |-> "rect", a |-> <<-20000, 40000, 10000>>, gs |-> <<<<2, 3, 15000, 10000, 0, 0, 0>>, <<1, 2, 20000, 10000, 15000, 5000, 15000>>>>],
          [k |-> "fpa", a |-> <<100000, 180000, 2, -1000000, 500000, 3>>, gs |-> <<>>],
          [k |-> "vers", a |-> <<300000>>, gs |-> <<<<1, 3, 40000, 20000, 0, 0, 0>>, <<1, 5, -1, 20000, -90000, 0, 0>>>>],
          [k |-> "fps", a |-> <<300000, 380000, 40000, 50000, 1, 0, 2000000>>, gs |-> <<>>]>>
ModsQuick == {<<1, 1, 7>>, <<2, 1, 7>>, <<2, 2, 3>>, <<4, 2, -1>>}               \* layout, coordinate type, identifier
ModsDeep == {<<l, tc, l + tc>> : l \in 1..4, tc \in 1..2} \cup {<<1, 1, 3>>, <<2, 2, 5>>}
PlacesQuick == {<<"setoff", 200000, 1200000>>, <<"setang", 700000>>, <<"setborder", 5000>>, <<"setoff", 0, 0>>}
PlacesDeep == PlacesQuick \cup {<<"setoff", 40000, -90000>>, <<"setang", -HalfPi>>, <<"setborder", 60000>>, <<"setang", 0>>}
ZsQuick == {-1000000, 0, 1000000}
Cmds == {[op |-> "mkmod", m |-> m, ID |-> x[3], tc |-> x[2], f |-> 5, k |-> Lays[x[1]].k, a |-> Lays[x[1]].a, gs |-> Lays[x[1]].gs] : m \in Ms, x \in Mods}
        \cup {IF p[1] = "setoff" THEN [op |-> p[1], m |-> m, x |-> p[2], y |-> p[3]] ELSE [op |-> p[1], m |-> m, x |-> p[2]] : m \in Ms, p \in Places}
        \cup [op : {"setz"}, m : Ms, x : Zs] \cup [op : {"mparam"}, m : Ms, n : {"a"}, x : {3}]
        \cup [op : {"mcopy", "mclone", "massign"}, m : Ms, from : Ms] \cup [op : {"mdel"}, m : Ms]
        \cup {[op |-> "tnew", t |-> t, plain |-> 0, drift |-> 500000, tc |-> tc] : t \in Ts, tc \in {1, 2}}
        \cup [op : {"tcopy", "tassign"}, t : Ts, from : Ts] \cup [op : {"tadd"}, t : Ts, m : Ms]
        \cup {[op |-> "tdrift", t |-> t, x |-> 2000000] : t \in Ts} \cup {[op |-> "tparam", t |-> t, n |-> "a", x |-> 3] : t \in Ts}
        \cup {[op |-> "tfreq", t |-> t, x |-> 9] : t \in Ts}
MEnabled(c) == CASE c.op \in {"mkmod", "mcopy", "mclone"} -> c.m \notin DOMAIN mo /\ TAllowed(c)
                 [] c.op \in {"tnew", "tcopy"} -> c.t \notin DOMAIN tp /\ TAllowed(c)
                 [] OTHER -> TAllowed(c)
\* a step touches only what it names; a refused step changes nothing; a copy equals its source
Isolated(c) == /\ \A i \in DOMAIN mo : ("m" \in DOMAIN c => i # c.m) => i \in DOMAIN mo' /\ mo'[i] = mo[i]
               /\ \A i \in DOMAIN tp : ("t" \in DOMAIN c => i # c.t) => i \in DOMAIN tp' /\ tp'[i] = tp[i]
               /\ ("ok" \notin TWant(c) => mo' = mo /\ tp' = tp)
               /\ (c.op \in {"mcopy", "mclone", "massign"} => mo'[c.m] = mo[c.from])
               /\ (c.op \in {"tcopy", "tassign"} => tp'[c.t] = tp[c.from])
MInit == TInit0 /\ hist = <<>>
MNext == \E c \in Cmds : MEnabled(c) /\ TDo(c) /\ Assert(Isolated(c), "isolation") /\ hist' = Append(hist, c)
MView == <<mo, tp>>
Bound == Len(hist) <= MaxOps
Emit == PrintT("HIST" \o ToJson(hist'))
MSpec == MInit /\ [][MNext]_<<tvars, hist>>
=============================================================================
