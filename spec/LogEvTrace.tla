----------------------------- MODULE LogEvTrace -----------------------------
EXTENDS LogEv
VARIABLES st, l
TInit == st = InitSt(1, <<>>) /\ l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN IF e.op = "reset" THEN st' = InitSt(Len(e.threads) + 1, e.sinks) ELSE st' \in Step(st, e)
TSpec == TInit /\ [][TNext]_<<st, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
