---------------------------- MODULE MemoEvTrace -----------------------------
EXTENDS MemoEv
VARIABLES st, l
TInit == st = InitSt(0) /\ l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN IF e.op = "reset" THEN st' = InitSt(Len(e.calls)) ELSE st' \in Step(st, e)
TSpec == TInit /\ [][TNext]_<<st, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
