------------------------------- MODULE LogOut -------------------------------
(* What a console sink writes for one message: every line of it that is not empty, each after the  *)
(* prefix that the format asks for (the time is checked and taken off by the driver).              *)
EXTENDS Text
Short == <<"TRC", "DBG", "INF", "WRN", "ERR", "CRT">>
Codes3 == [TRC |-> <<84, 82, 67>>, DBG |-> <<68, 66, 71>>, INF |-> <<73, 78, 70>>, WRN |-> <<87, 82, 78>>, ERR |-> <<69, 82, 82>>, CRT |-> <<67, 82, 84>>]
RECURSIVE LinesFrom(_, _, _)
LinesFrom(s, p, cur) == LET done == IF cur = <<>> THEN <<>> ELSE <<cur>> IN
   IF p > Len(s) THEN done ELSE IF s[p] \in {10, 13} THEN done \o LinesFrom(s, p + 1, <<>>) ELSE LinesFrom(s, p + 1, Append(cur, s[p]))
ConsoleLines(l, level, s) == LET L == LinesFrom(s, 1, <<>>) IN
   [i \in DOMAIN L |-> (IF level THEN Codes3[Short[l]] \o <<32>> ELSE <<>>) \o L[i]]
LRet(o) == CASE o.op = "console" -> OkV(ConsoleLines(o.l, o.level, o.text))
             [] o.op = "badfile" -> OkV(FALSE)

CONSTANTS Alpha, StrLen
VARIABLES s
Init == s = <<>>
Next == Len(s) < StrLen /\ \E c \in Alpha : s' = Append(s, c)
Spec == Init /\ [][Next]_s
(* no text is lost or added, and no line is empty *)
InvLines == LET L == ConsoleLines(1, FALSE, s) IN
   /\ \A i \in DOMAIN L : L[i] # <<>> /\ ~Has(L[i], 10) /\ ~Has(L[i], 13)
   /\ Cat(L) = SelectSeq(s, LAMBDA c : c \notin {10, 13})
Call(t, v, l) == LET o == [op |-> "console", time |-> t, level |-> v, l |-> l, text |-> s] IN o @@ [ret |-> LRet(o)]
Emit == EmitSeq([i \in 1..8 |-> Call(i % 2 = 1, i > 2, IF i <= 2 THEN i ELSE i - 2)])
=============================================================================
