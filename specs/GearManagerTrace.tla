-------------------------- MODULE GearManagerTrace --------------------------
EXTENDS GearManager, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
TInit == Init /\ i = 1 /\ bad = <<>>
TNext == /\ i <= Len(Trace) /\ i' = i + 1
         /\ LET e == Trace[i] IN
            IF e.op = "reset" THEN Reset /\ bad' = bad
            ELSE IF e.op \notin {"new","setSlot","setSec","regMat","setName","destroy"} \cup Queries
            THEN UNCHANGED vars /\ bad' = Append(bad, i)
            ELSE /\ Do(e, IF "d" \in DOMAIN e.r THEN Toset(e.r.d) ELSE {})
                 /\ bad' = IF "d" \in DOMAIN e.r /\ ResOK(e) THEN bad ELSE Append(bad, i)
TSpec == TInit /\ [][TNext]_<<vars, i, bad>>
Report == i = Len(Trace) + 1 => PrintT(<<"BAD", bad>>)
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
