------------------------------ MODULE TPCTrace ------------------------------
EXTENDS TPC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
TInit == TInit0 /\ i = 1 /\ bad = <<>>
TNext == /\ i <= Len(Trace) /\ i' = i + 1
         /\ LET e == Trace[i] IN
            IF e.op = "reset" THEN UNCHANGED ob /\ mo' = NoF /\ tp' = NoF /\ bad' = bad
            ELSE IF e.op \notin TOps \/ ~TAllowed(e) THEN UNCHANGED tvars /\ bad' = Append(bad, i)
            ELSE TDo(e) /\ bad' = IF TResOK(e) THEN bad ELSE Append(bad, i)
TSpec == TInit /\ [][TNext]_<<tvars, i, bad>>
Report == i = Len(Trace) + 1 => PrintT(<<"BAD", bad>>)
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
