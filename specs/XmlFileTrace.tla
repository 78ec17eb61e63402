--------------------------- MODULE XmlFileTrace ---------------------------
EXTENDS XmlFile, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
TInit == Init /\ XInit /\ i = 1 /\ bad = <<>>
TNext == /\ i <= Len(Trace) /\ i' = i + 1
         /\ LET e == Trace[i] IN
            IF e.op = "reset" THEN mg' = Empty /\ fl' = Empty /\ seen' = {} /\ fx' = Empty /\ rdr' = Empty /\ reg' = Builtin /\ bad' = bad
            ELSE IF e.op \in XOps THEN XEnabled(e) /\ XDo(e) /\ bad' = IF XResOK(e) THEN bad ELSE Append(bad, i)
            ELSE IF e.op \notin Ops THEN UNCHANGED <<vars, xvars>> /\ bad' = Append(bad, i)
            ELSE Enabled(e) /\ Do(e) /\ UNCHANGED xvars /\ bad' = IF ResOK2(e) THEN bad ELSE Append(bad, i)
TSpec == TInit /\ [][TNext]_<<vars, xvars, i, bad>>
Report == i = Len(Trace) + 1 => PrintT(<<"BAD", bad>>)
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
