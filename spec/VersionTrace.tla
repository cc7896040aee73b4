---------------------------- MODULE VersionTrace ----------------------------
EXTENDS Version
VARIABLE l
TInit == l = 1 /\ s = <<>> /\ v = Z /\ w = Z
TNext == l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED vars /\ (LET e == Trace[l] IN e.op = "reset" \/ e.ret = VRet(e))
TSpec == TInit /\ [][TNext]_<<l, vars>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
