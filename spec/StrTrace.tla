------------------------------ MODULE StrTrace ------------------------------
EXTENDS StrTools
VARIABLE l
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (LET e == Trace[l] IN e.op = "reset" \/ e.ret = Ret(e))
TSpec == TInit /\ [][TNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
