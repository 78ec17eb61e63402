-------------------------- MODULE ParamStoreTrace --------------------------
EXTENDS ParamStore, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
TInit == Init /\ i = 1 /\ bad = <<>>
TNext == /\ i <= Len(Trace) /\ i' = i + 1
         /\ LET e == Trace[i] IN
            IF e.op = "reset" THEN st' = [x \in {} |-> Fresh] /\ bad' = bad
            ELSE IF e.op \notin Ops THEN UNCHANGED st /\ bad' = Append(bad, i)
            ELSE Enabled(e) /\ Do(e) /\ bad' = IF ResOK(e) THEN bad ELSE Append(bad, i)
TSpec == TInit /\ [][TNext]_<<vars, i, bad>>
Report == i = Len(Trace) + 1 => PrintT(<<"BAD", bad>>)
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
