--------------------------- MODULE CircDequeTrace ---------------------------
EXTENDS CircDeque
VARIABLE l
TInit == st = InitSt(0) /\ hist = <<>> /\ cap0 = 0 /\ l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED <<hist, cap0>>
         /\ LET e == Trace[l] IN
            IF e.op = "reset" THEN st' = InitSt(e.cap)
            ELSE LET r == Apply(st, e) IN r.ret = e.ret /\ Obs(r.st) = e.obs /\ st' = r.st
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
