---------------------------- MODULE IniXmlTrace -----------------------------
EXTENDS IniXml
VARIABLE l
TInit == l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            CASE e.op = "reset" -> TRUE
              [] e.op = "parse" -> e.ret = ReadRet(e.f, e.s)
              [] e.op = "write" -> Denotes(e.f, e.n) => e.ret.ok /\ ReadAs(e.f, e.ret.v) = Good(BackFrom(e.f, e.n))
              [] e.op = "round" -> Denotes(e.f, e.n) => e.ret = OkV(BackFrom(e.f, e.n))
TSpec == TInit /\ [][TNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
