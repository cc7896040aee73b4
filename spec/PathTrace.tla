------------------------------ MODULE PathTrace -----------------------------
EXTENDS Path
VARIABLE l
TInit == l = 1 /\ s = <<>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED s /\ (LET e == Trace[l] IN e.op = "reset" \/ e.ret = PRet(e))
TSpec == TInit /\ [][TNext]_<<l, s>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
