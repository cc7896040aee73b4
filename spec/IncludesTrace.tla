---------------------------- MODULE IncludesTrace ---------------------------
EXTENDS Includes
VARIABLES l, D
TInit == l = 1 /\ D = World(<<>>)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op = "reset" THEN D' = World(e.files)
            ELSE /\ UNCHANGED D
                 /\ CASE e.op = "zml" -> e.ret = RetZ(D, e.f)
                      [] e.op = "text" -> e.ret = RetText(D, e.s)
                      [] e.op = "inc" -> e.ret = RetInc(D, e.f, e.d)
                      [] e.op = "included" -> IF RetZ(D, e.f).ok THEN e.ret = OkV([k \in DOMAIN e.fs |-> Count(Incl(D, DirOf(e.f), D.files[e.f]), e.fs[k])]) ELSE e.ret = Fail
TSpec == TInit /\ [][TNext]_<<l, D>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
