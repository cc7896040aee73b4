------------------------------ MODULE IncrTrace -----------------------------
EXTENDS Incr
VARIABLE l
TInit == Init /\ l = 1
(* an average that is no multiple of 1/840 is left to its neighbours *)
Fits(o, r) == IF o.op \in {"av_add"} /\ r.v.mean = -999 THEN o.ret.ok /\ o.ret.v.empty = r.v.empty
              ELSE IF o.op \in {"bo_new", "bo_extend"} /\ r.v.mid = -999 THEN o.ret.ok /\ [o.ret.v EXCEPT !.mid = -999] = r.v
              ELSE o.ret = r
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED <<hist, tail>>
         /\ LET e == Trace[l] IN
            IF e.op = "reset" THEN st' = InitSt
            ELSE LET r == Ap(st, e) IN Fits(e, r.ret) /\ st' = r.st
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
