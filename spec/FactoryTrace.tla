---------------------------- MODULE FactoryTrace ----------------------------
EXTENDS Factory
VARIABLE l
TInit == st = InitSt /\ hist = <<>> /\ l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED hist
         /\ LET e == Trace[l] IN
            IF e.op = "reset" THEN st' = InitSt
            ELSE LET r == Apply(st, e) IN r.ret = e.ret /\ Obs(r.st) = e.obs /\ st' = r.st
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
