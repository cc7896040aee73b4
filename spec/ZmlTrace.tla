------------------------------ MODULE ZmlTrace ------------------------------
EXTENDS Zml
VARIABLE l
RetOf(s) == LET r == Parse(s) IN IF r.ok THEN OkV(r.n) ELSE Fail
TInit == l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            CASE e.op = "reset" -> TRUE
              [] e.op = "parse" -> e.ret = RetOf(e.s)
              [] e.op = "write" -> DocOK(e.n) => e.ret.ok /\ Parse(e.ret.v) = [ok |-> TRUE, n |-> e.n]
              [] e.op = "round" -> DocOK(e.n) => e.ret = OkV(e.n)
TSpec == TInit /\ [][TNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
