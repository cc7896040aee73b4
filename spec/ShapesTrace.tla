------------------------------ MODULE ShapesTrace ------------------------------
EXTENDS Shapes
VARIABLE l
TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED hist
         /\ LET e == Trace[l] IN
            IF e.op = "reset" THEN st' = 0
            ELSE LET r == Ap(st, e) IN e.ret = r.ret /\ st' = r.st
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
