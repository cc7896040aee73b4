----------------------------- MODULE TablesTrace ----------------------------
EXTENDS Tables
VARIABLES l, kind
TInit == st = InitSt /\ hist = <<>> /\ l = 1 /\ kind = ""
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED hist
         /\ LET e == Trace[l] IN
            IF e.op = "reset" THEN st' = InitSt /\ kind' = e.kind
            ELSE LET r == Apply(kind, st, e) IN r.ret = e.ret /\ Obs(kind, r.st) = e.obs /\ Distinct(r.st.cl) /\ Distinct(r.st.rl) /\ st' = r.st /\ UNCHANGED kind
TSpec == TInit /\ [][TNext]_<<vars, l, kind>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
