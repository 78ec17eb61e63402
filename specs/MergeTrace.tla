---------------------------- MODULE MergeTrace ----------------------------
EXTENDS Merge, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
TInit == Init /\ XInit /\ MrInit /\ i = 1 /\ bad = <<>>
TNext == /\ i <= Len(Trace) /\ i' = i + 1
         /\ LET e == Trace[i] IN
            IF e.op = "reset" THEN mg' = Empty /\ fl' = Empty /\ seen' = {} /\ fx' = Empty /\ rdr' = Empty /\ reg' = Builtin /\ mr' = Empty /\ bad' = bad
            ELSE IF e.op \in MrOps THEN MrEnabled(e) /\ MrDo(e) /\ bad' = IF MrResOK(e) THEN bad ELSE Append(bad, i)
            ELSE IF e.op \in XOps THEN XEnabled(e) /\ XDo(e) /\ UNCHANGED mr /\ bad' = IF XResOK(e) THEN bad ELSE Append(bad, i)
            ELSE IF e.op \notin Ops THEN UNCHANGED <<vars, xvars, mr>> /\ bad' = Append(bad, i)
            \* nothing was read: there is nothing to look at
            ELSE IF e.op \in Asks /\ e.op # "same" /\ e.m \notin DOMAIN mg THEN UNCHANGED <<vars, xvars, mr>> /\ bad' = IF e.r.x = "std" THEN bad ELSE Append(bad, i)
            ELSE Enabled(e) /\ Do(e) /\ UNCHANGED <<xvars, mr>> /\ bad' = IF ResOK2(e) THEN bad ELSE Append(bad, i)
TSpec == TInit /\ [][TNext]_<<vars, xvars, mr, i, bad>>
Report == i = Len(Trace) + 1 => PrintT(<<"BAD", bad>>)
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
