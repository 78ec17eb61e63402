--------------------------- MODULE GearManagerMC ---------------------------
(* Exhaustive exploration of the registry over a small pool of objects; every *)
(* transition of the bounded state graph is printed as a command history and  *)
(* replayed on the real code.                                                 *)
EXTENDS GearManager, Json
CONSTANTS MSlots, MNames, MM,    \* slots, names, managers exercised
          Pool,                  \* sequence of [k, n, bxa]
          MaxOps
VARIABLES hist
mvars == <<vars, hist>>
News == [o \in 1..Len(Pool) |-> [op |-> "new", o |-> o, k |-> Pool[o].k, n |-> Pool[o].n, bxa |-> Pool[o].bxa]]
MInit == /\ slot = [m \in Mgrs |-> [s \in Slots |-> 0]]
          /\ sec = [m \in Mgrs |-> Empty] /\ mat = [m \in Mgrs |-> Empty]
          /\ dname = [m \in Mgrs |-> ""] /\ gone = {} /\ up = Mgrs
          /\ obj = [o \in 1..Len(Pool) |-> Pool[o]] /\ hist = News
VARIABLE used     \* objects ever handed to a registry
Fresh(k) == {o \in 1..Len(Pool) : obj[o].k = k /\ o \notin used}
Cmds(m) ==
  UNION { {[op |-> "setSlot", m |-> m, s |-> s, o |-> o] : o \in Fresh(KindOf(s)) \cup {slot[m][s]}} : s \in MSlots }
  \cup { [op |-> "setSec", m |-> m, n |-> n, o |-> o] : n \in MNames, o \in Fresh("Sec") \cup {0} }
  \cup { [op |-> "setSec", m |-> m, n |-> n, o |-> sec[m][n]] : n \in MNames \cap DOMAIN sec[m] }
  \cup { [op |-> "regMat", m |-> m, o |-> o] : o \in Fresh("Mat") }
  \cup { [op |-> "setName", m |-> m, n |-> n] : n \in MNames \cup {""} }
  \cup { [op |-> "destroy", m |-> m] }
Legal(c) == c.op = "setSlot" => ~(c.s \in FwdSlots /\ c.o = 0)
MNext == \E m \in MM \cap up : \E c \in Cmds(m) :
           /\ Legal(c)
           /\ Do(c, Replaced(c))
           /\ used' = used \cup (IF c.op \in {"setSlot","setSec","regMat"} THEN {c.o} ELSE {})
           /\ hist' = Append(hist, c)
MView == <<vars, used>>
Bound == Len(hist) <= Len(Pool) + MaxOps
Emit == PrintT("HIST" \o ToJson(hist'))
MSpec == MInit /\ used = {} /\ [][MNext]_<<mvars, used>>
PoolDef == << [k |-> "TPC", n |-> "", bxa |-> None], [k |-> "TPC", n |-> "", bxa |-> None],
              [k |-> "Cal", n |-> "", bxa |-> None], [k |-> "Cal", n |-> "", bxa |-> 14],
              [k |-> "Sec", n |-> "", bxa |-> None], [k |-> "Sec", n |-> "", bxa |-> None],
              [k |-> "Mat", n |-> "a", bxa |-> None], [k |-> "Mat", n |-> "a", bxa |-> None], [k |-> "Mat", n |-> "b", bxa |-> None] >>
=============================================================================
