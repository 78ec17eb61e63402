---------------------------- MODULE GearManager ----------------------------
(* The registry at the heart of GEAR: one slot per sub-detector, named         *)
(* sections, named materials, a detector name, and ownership of what is        *)
(* registered.  Property P01.                                                  *)
(* Every public call is one action; Step(e) gives the state change, ResOK(e)   *)
(* says which observed results r the state allows.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CalSlots == {"EcalBarrel","EcalEndcap","EcalPlug","YokeBarrel","YokeEndcap","YokePlug",
             "HcalBarrel","HcalEndcap","HcalRing","Lcal","LHcal","BeamCal"}
FwdSlots == {"Lcal","LHcal","BeamCal"}
ZplSlots == {"VXD","SIT","SET"}
Slots == CalSlots \cup ZplSlots \cup {"TPC","FTD","TrackerPlanes","SiPlanes","Point","Distance","BField"}
KindOf(s) == IF s \in CalSlots THEN "Cal" ELSE IF s \in ZplSlots THEN "Zpl" ELSE s

None == -1          \* no beam crossing angle
Mgrs == 1..2

VARIABLES
  slot,     \* slot[m][s]: registered object, 0 = none
  sec,      \* sec[m]: partial function name -> object
  mat,      \* mat[m]: partial function name -> object
  dname,    \* dname[m]: detector name, "" = unset
  obj,      \* id -> [k: kind, n: material name, bxa: crossing angle or None]
  gone,     \* objects already destroyed
  up        \* managers that exist

vars == <<slot, sec, mat, dname, obj, gone, up>>

Empty == [x \in {} |-> 0]
Init == /\ slot = [m \in Mgrs |-> [s \in Slots |-> 0]]
        /\ sec = [m \in Mgrs |-> Empty]
        /\ mat = [m \in Mgrs |-> Empty]
        /\ dname = [m \in Mgrs |-> ""]
        /\ obj = Empty
        /\ gone = {}
        /\ up = Mgrs

Put(f, k, v) == (k :> v) @@ f
Range(f) == {f[x] : x \in DOMAIN f}
Registered(m) == ({slot[m][s] : s \in Slots} \ {0}) \cup Range(sec[m]) \cup Range(mat[m])
Toset(q) == {q[i] : i \in 1..Len(q)}

(* d = objects destroyed during the call: must be exactly the given ones or,
   for a replaced object, may be it (ownership passes, see P01).              *)
Destroyed(e) == e.r.d
NoneDestroyed(e) == Destroyed(e) = <<>>
AtMost(e, S) == /\ Toset(Destroyed(e)) \subseteq S
                /\ Len(Destroyed(e)) = Cardinality(Toset(Destroyed(e)))

-----------------------------------------------------------------------------
(* state changes *)
New(e) == /\ obj' = Put(obj, e.o, [k |-> e.k, n |-> e.n, bxa |-> e.bxa])
          /\ UNCHANGED <<slot, sec, mat, dname, gone, up>>

SetSlot(e) ==
  /\ slot' = [slot EXCEPT ![e.m][e.s] = e.o]
  /\ obj' = IF e.s \in FwdSlots /\ e.o # 0 /\ obj[e.o].bxa = None
            THEN [obj EXCEPT ![e.o].bxa = 0] ELSE obj
  /\ UNCHANGED <<sec, mat, dname, up>>

SetSec(e) ==
  /\ sec' = IF e.o = 0 THEN sec ELSE [sec EXCEPT ![e.m] = Put(@, e.n, e.o)]
  /\ UNCHANGED <<slot, mat, dname, obj, up>>

RegMat(e) ==
  /\ mat' = IF obj[e.o].n \in DOMAIN mat[e.m] THEN mat
            ELSE [mat EXCEPT ![e.m] = Put(@, obj[e.o].n, e.o)]
  /\ UNCHANGED <<slot, sec, dname, obj, up>>

SetName(e) == /\ dname' = [dname EXCEPT ![e.m] = e.n]
              /\ UNCHANGED <<slot, sec, mat, obj, gone, up>>

Destroy(e) == /\ slot' = [slot EXCEPT ![e.m] = [s \in Slots |-> 0]]
              /\ sec' = [sec EXCEPT ![e.m] = Empty]
              /\ mat' = [mat EXCEPT ![e.m] = Empty]
              /\ dname' = [dname EXCEPT ![e.m] = ""]
              /\ up' = up \ {e.m}
              /\ UNCHANGED <<obj>>

Reset == /\ slot' = [m \in Mgrs |-> [s \in Slots |-> 0]]
         /\ sec' = [m \in Mgrs |-> Empty]
         /\ mat' = [m \in Mgrs |-> Empty]
         /\ dname' = [m \in Mgrs |-> ""]
         /\ obj' = Empty /\ gone' = {} /\ up' = Mgrs

Queries == {"getSlot","getSec","secKeys","getMat","matNames","getName","bxa","store"}

(* What the call may destroy: only the object it replaces (if it is not put back) *)
Replaced(e) == CASE e.op = "setSlot" -> {slot[e.m][e.s]} \ {0, e.o}
                 [] e.op = "setSec" -> IF e.o # 0 /\ e.n \in DOMAIN sec[e.m] THEN {sec[e.m][e.n]} \ {e.o} ELSE {}
                 [] OTHER -> {}

Change(e) == CASE e.op = "new" -> New(e)
               [] e.op = "setSlot" -> SetSlot(e)
               [] e.op = "setSec" -> SetSec(e)
               [] e.op = "regMat" -> RegMat(e)
               [] e.op = "setName" -> SetName(e)
               [] e.op = "destroy" -> Destroy(e)
               [] e.op \in Queries -> UNCHANGED vars

(* d: the set of objects destroyed, chosen by the implementation within Replaced *)
Do(e, d) ==
  /\ Change(e)
  /\ (e.op \in {"setSlot","setSec","regMat"}) => gone' = gone \cup d
  /\ (e.op = "destroy") => gone' = gone \cup Registered(e.m)

-----------------------------------------------------------------------------
(* allowed observations *)
IsSorted(q) == TRUE   \* order is checked against the expected sorted sequence, see SortedKeys
Got(e, v) == e.r.x = "ok" /\ e.r.v = v
Fails(e, x) == e.r.x = x

Obs(e) ==
  CASE e.op = "getSlot" -> IF slot[e.m][e.s] = 0 THEN Fails(e, "Unknown") ELSE Got(e, slot[e.m][e.s])
    [] e.op = "getSec" -> IF e.n \in DOMAIN sec[e.m] THEN Got(e, sec[e.m][e.n]) ELSE Fails(e, "Unknown")
    [] e.op = "getMat" -> IF e.n \in DOMAIN mat[e.m] THEN Got(e, mat[e.m][e.n]) ELSE Fails(e, "Unknown")
    [] e.op = "getName" -> IF dname[e.m] = "" THEN Fails(e, "Unknown") ELSE Got(e, dname[e.m])
    [] e.op = "secKeys" -> e.r.x = "ok" /\ e.r.sorted /\ Toset(e.r.v) = DOMAIN sec[e.m] /\ Len(e.r.v) = Cardinality(DOMAIN sec[e.m])
    [] e.op = "matNames" -> e.r.x = "ok" /\ e.r.sorted /\ Toset(e.r.v) = DOMAIN mat[e.m] /\ Len(e.r.v) = Cardinality(DOMAIN mat[e.m])
    [] e.op = "bxa" -> IF obj[e.o].bxa = None THEN Fails(e, "Unknown") ELSE Got(e, obj[e.o].bxa)
    [] e.op = "regMat" -> IF obj[e.o].n \in DOMAIN mat[e.m] THEN Fails(e, "Exception") ELSE e.r.x = "ok"
    [] e.op = "store" -> Got(e, e.m)
    [] OTHER -> e.r.x = "ok"

ResOK(e) ==
  /\ Obs(e)
  /\ IF e.op = "destroy" THEN /\ Toset(Destroyed(e)) = Registered(e.m)
                              /\ Len(Destroyed(e)) = Cardinality(Registered(e.m))
     ELSE AtMost(e, Replaced(e))

-----------------------------------------------------------------------------
(* design invariants, checked exhaustively in GearManagerMC *)
NothingRegisteredIsGone == \A m \in up : Registered(m) \cap gone = {}
KindsMatch == \A m \in up : \A s \in Slots : slot[m][s] # 0 => obj[slot[m][s]].k = KindOf(s)
ForwardHaveAngle == \A m \in up : \A s \in FwdSlots : slot[m][s] # 0 => obj[slot[m][s]].bxa # None
MatUnderOwnName == \A m \in up : \A n \in DOMAIN mat[m] : obj[mat[m][n]].n = n
=============================================================================
