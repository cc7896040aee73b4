------------------------------ MODULE ArgsTrace -----------------------------
EXTENDS Args
VARIABLE l
(* text that is no number has no number value *)
Same(x, y) == x = y \/ (x.ok /\ y.ok /\ "n" \in DOMAIN x.v /\ x.v.n = -999 /\ [x.v EXCEPT !.n = 0] = [y.v EXCEPT !.n = 0])
TInit == l = 1 /\ a = <<>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED a
         /\ (LET e == Trace[l] IN IF e.op = "reset" THEN TRUE ELSE IF e.op \in {"opt", "pos"} THEN Same(ARet(e), e.ret) ELSE ARet(e) = e.ret)
TSpec == TInit /\ [][TNext]_<<l, a>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
