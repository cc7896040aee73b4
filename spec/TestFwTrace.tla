----------------------------- MODULE TestFwTrace ----------------------------
EXTENDS TestFw
VARIABLE l
TInit == l = 1 /\ cs = <<>> /\ done = FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED vars /\ (Trace[l].op = "reset" \/ Trace[l].ret = Ret(Trace[l]) \/ (Trace[l].ret = DRet(Trace[l]) /\ Key(Trace[l]) \in Listed))
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
