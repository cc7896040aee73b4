----------------------------- MODULE AssocTrace -----------------------------
EXTENDS Assoc
VARIABLE l
TInit == st = InitSt("fmap", <<>>) /\ hist = <<>> /\ ini = 0 /\ pushed = TRUE /\ l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED <<hist, ini, pushed>>
         /\ LET e == Trace[l] IN
            IF e.op = "reset" THEN st' = InitSt(e.kind, e.l) /\ Obs(st') = e.obs
            ELSE LET r == Apply(st, e) IN r.ret = e.ret /\ Obs(r.st) = e.obs /\ st' = r.st
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
