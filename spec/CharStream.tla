----------------------------- MODULE CharStream -----------------------------
(* char_stream: a cursor over a text.  State: text, position (1-based), the fail and eof flags, the  *)
(* lexical configuration.  Flags are sticky; eof is noticed only by calls that look for it.         *)
EXTENDS Text

WsD == {0, 32, 9, 10, 11, 12, 13}
(* operators are tried longest first, equally long ones exclude each other *)
Lexer(d, q, ops) == [d |-> d \cup {0}, q |-> q, o |-> SortSeq(ops, LAMBDA a, b : Len(a) > Len(b))]
InitSt(s, lx) == [s |-> s, p |-> 1, fail |-> FALSE, eof |-> FALSE, L |-> lx, tq |-> FALSE]
End(s) == s.p > Len(s.s)
TestEof(s) == IF End(s) THEN [s EXCEPT !.eof = TRUE] ELSE s
Skip(s) == TestEof([s EXCEPT !.p = SkipDelims(s.s, s.p, s.L)])
Good(s) == ~s.fail /\ ~s.eof
Num(s) == LET t == Skip(s) d == ParseInt(t.s, t.p) IN
   IF d.ok THEN [st |-> [t EXCEPT !.p = d.p], v |-> d.v] ELSE [st |-> [t EXCEPT !.fail = TRUE], v |-> 0]
StopAt(s, p) == LET e == FindAny(s, p, {10, 13, 0}) IN IF e = 0 THEN Len(s) + 1 ELSE e
Apply(s, o) ==
  CASE o.op = "int" -> LET r == Num(s) IN R(r.st, OkV(r.v))
    [] o.op = "uint" -> LET r == Num(s) IN R(r.st, OkV(IF r.v < 0 THEN -1 ELSE r.v))
    [] o.op = "opt" -> LET r == Num(s) IN R(r.st, IF r.st.fail THEN Fail ELSE OkV(r.v))
    [] o.op = "token" -> LET t == Skip(s) IN
         IF ~Good(t) THEN R([TestEof(t) EXCEPT !.tq = FALSE], OkV(<<>>))
         ELSE LET k == Token(t.s, t.p, t.L) IN R(TestEof([t EXCEPT !.p = k.p, !.fail = @ \/ ~k.ok, !.tq = k.q]), OkV(k.t))
    [] o.op = "line" -> IF End(s) THEN R(TestEof(s), OkV(<<>>))
                        ELSE LET e == StopAt(s.s, s.p) IN R([s EXCEPT !.p = e], OkV(SubSeq(s.s, s.p, e - 1)))
    [] o.op = "getc" -> IF End(s) THEN R(TestEof(s), OkV(0)) ELSE R([s EXCEPT !.p = @ + 1], OkV(s.s[s.p]))
    [] o.op = "peekc" -> IF End(s) THEN R(TestEof(s), OkV(0)) ELSE R(s, OkV(s.s[s.p]))
    [] o.op \in {"seek", "seek_past"} ->
         LET f == IF Good(s) THEN FindFrom(s.s, s.p, o.x) ELSE 0 IN
         IF f = 0 THEN R([s EXCEPT !.fail = TRUE], OkV(FALSE))
         ELSE IF o.op = "seek" THEN R([s EXCEPT !.p = f], OkV(TRUE))
         ELSE R(TestEof([s EXCEPT !.p = f + Len(o.x)]), OkV(TRUE))
    [] o.op = "try_str" -> IF StartsAt(s.s, s.p, o.x) THEN R([s EXCEPT !.p = @ + Len(o.x)], OkV(TRUE)) ELSE R(s, OkV(FALSE))
    [] o.op = "try_char" -> IF ~End(s) /\ s.s[s.p] = o.c THEN R([s EXCEPT !.p = @ + 1], OkV(TRUE)) ELSE R(s, OkV(FALSE))
    [] o.op = "set_ops" -> R([s EXCEPT !.L = Lexer(s.L.d, s.L.q, o.l)], Ok)
    [] o.op = "set_delims" -> R([s EXCEPT !.L = [@ EXCEPT !.d = Rng(o.x) \cup {0}]], Ok)
    [] o.op = "set_quotes" -> R([s EXCEPT !.L = [@ EXCEPT !.q = Rng(o.x)]], Ok)
Line(s) == 1 + Cardinality({i \in 1..(s.p - 1) : s.s[i] = 10})
Obs(s) == [good |-> Good(s), eof |-> s.eof, fail |-> s.fail, line |-> Line(s), q |-> s.tq]

----------------------------------------------------------------------------
CONSTANTS Alpha, TextLen, Extra, Delims, Quotes, Operators, Words, MaxLen, Rich
VARIABLES st, hist
vars == <<st, hist>>
Lx == Lexer(Delims, Quotes, Operators)
Pick(S) == IF Rich THEN {RandomElement(S)} ELSE S
Texts == UNION {[1..k -> Alpha] : k \in 0..TextLen}
RandText == Cat([i \in 1..TextLen |-> <<RandomElement(Alpha)>>])
Init == /\ hist = <<>> /\ \E t \in (IF Rich THEN {RandText} ELSE Texts \cup Extra) : st = InitSt(t, Lx)
Init0 == [s |-> st.s, d |-> SetToSeq(Delims), q |-> SetToSeq(Quotes), o |-> Operators]
Do(o) == LET r == Apply(st, o) IN
  /\ Len(hist) < MaxLen
  /\ st' = r.st /\ hist' = Append(hist, o @@ [ret |-> r.ret, obs |-> Obs(r.st)])
DoNum == Do([op |-> "int"]) \/ Do([op |-> "opt"])
DoUint == Rich /\ Num(st).v >= 0 /\ Do([op |-> "uint"])
DoToken == Do([op |-> "token"])
DoLine == Do([op |-> "line"])
DoChar == Do([op |-> "getc"]) \/ Do([op |-> "peekc"])
DoSeek == \E x \in Pick(Words) : Do([op |-> "seek", x |-> x]) \/ Do([op |-> "seek_past", x |-> x])
DoTry == \/ \E x \in Pick(Words) : Do([op |-> "try_str", x |-> x])
         \/ \E c \in Pick(Alpha \ {0}) : Do([op |-> "try_char", c |-> c])
DoConfig == Rich /\ RandomElement(1..6) = 1 /\
            \/ Do([op |-> "set_ops", l |-> RandomElement({<<>>, Operators})])
            \/ Do([op |-> "set_delims", x |-> RandomElement({<<32>>, <<32, 10>>, <<32, 44>>})])
            \/ Do([op |-> "set_quotes", x |-> RandomElement({<<34>>, <<>>, <<34, 39>>})])
Next == DoNum \/ DoUint \/ DoToken \/ DoLine \/ DoChar \/ DoSeek \/ DoTry \/ DoConfig
Spec == Init /\ [][Next]_vars
Core == st
(* reading tokens until the end: every character is in a token, a delimiter, a quote or an escape; it always ends *)
RECURSIVE Tokens(_, _)
Tokens(s, n) == IF ~Good(s) THEN n ELSE IF n > 2 * Len(s.s) + 2 THEN -1 ELSE Tokens(Apply(s, [op |-> "token"]).st, n + 1)
InvTerminates == Tokens(st, 0) >= 0
InvPos == st.p \in 1..(Len(st.s) + 1)
InvProgress == Good(st) => LET t == Apply(st, [op |-> "token"]).st IN t.p > st.p \/ ~Good(t)
EmitEdge == EmitBI(Init0, SubSeq(hist', 1, Len(hist') - 1), hist'[Len(hist')])
EmitRun == Len(hist) = MaxLen => EmitBI(Init0, SubSeq(hist, 1, MaxLen - 1), hist[MaxLen])
=============================================================================
