------------------------------ MODULE StrTools ------------------------------
(* The string tools as functions on sequences of character codes.  Ret(o) is the result of call o. *)
EXTENDS Text

Ws == {32, 9, 13, 10, 12, 11}
Find(s, x, p) == FindFrom(s, p, x)             \* 1-based, 0 = none
Idx(p) == IF p = 0 THEN -1 ELSE p - 1
Sub(s, a, b) == SubSeq(s, Max2(a, 1), Min2(b, Len(s)))
Abs(n) == IF n < 0 THEN -n ELSE n
Left(s, n) == IF n >= 0 THEN Sub(s, 1, n) ELSE Sub(s, 1, Len(s) + n)
Right(s, n) == IF n >= 0 THEN Sub(s, Len(s) - n + 1, Len(s)) ELSE Sub(s, 1 - n, Len(s))
RECURSIVE Nth(_, _, _, _)
Nth(s, x, n, p) == LET q == Find(s, x, p) IN IF q = 0 \/ n = 1 THEN q ELSE Nth(s, x, n - 1, q + 1)
Begins(s, x) == StartsAt(s, 1, x)
Ends(s, x) == Len(x) <= Len(s) /\ StartsAt(s, Len(s) - Len(x) + 1, x)
FirstNot(s, S) == FindAny(s, 1, 0..255 \ S)
LastIn(s, S) == LET I == {i \in DOMAIN s : s[i] \in S} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
TrimL(s, S) == LET p == FirstNot(s, S) IN IF p = 0 THEN <<>> ELSE SubSeq(s, p, Len(s))
TrimR(s, S) == SubSeq(s, 1, LastIn(s, 0..255 \ S))
Trim(s, S) == TrimR(TrimL(s, S), S)
RECURSIVE Split(_, _)
Split(s, S) == LET t == TrimL(s, S) e == FindAny(t, 1, S) IN
   IF t = <<>> THEN <<>> ELSE IF e = 0 THEN <<t>> ELSE <<SubSeq(t, 1, e - 1)>> \o Split(SubSeq(t, e, Len(t)), S)
At(s, p) == IF p = 0 THEN <<s, <<>>>> ELSE <<SubSeq(s, 1, p - 1), SubSeq(s, p + 1, Len(s))>>
RECURSIVE Repl(_, _, _)
Repl(s, x, y) == LET p == Find(s, x, 1) IN IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1) \o y \o Repl(SubSeq(s, p + Len(x), Len(s)), x, y)
Map1(s, f(_)) == [i \in DOMAIN s |-> f(s[i])]
LowerC(c) == IF c \in 65..90 THEN c + 32 ELSE c
UpperC(c) == IF c \in 97..122 THEN c - 32 ELSE c
KeyVal(s, S) == LET p == FindAny(s, 1, S) IN IF p = 0 THEN <<s, <<>>>> ELSE <<Trim(SubSeq(s, 1, p - 1), Ws), Trim(SubSeq(s, p + 1, Len(s)), Ws)>>
RECURSIVE Joined(_, _)
Joined(l, d) == IF l = <<>> THEN <<>> ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o d \o Joined(Tail(l), d)
JoinNE(l, d) == Joined(SelectSeq(l, LAMBDA x : x # <<>>), d)
AppendD(s, x, d) == IF s # <<>> /\ ~Ends(s, d) THEN s \o d \o x ELSE s \o x
Latin(c) == CASE c \in {193, 192} -> <<65>> [] c = 196 -> <<65, 101>> [] c \in {220, 219, 217} -> <<85>> [] c \in {225, 224} -> <<97>>
   [] c = 228 -> <<97, 101>> [] c = 231 -> <<99>> [] c \in {235, 234, 233, 232} -> <<101>> [] c = 239 -> <<105>> [] c = 241 -> <<110>>
   [] c \in {243, 246} -> <<111>> [] c \in {251, 249} -> <<117>> [] c = 252 -> <<117, 101>> [] OTHER -> <<c>>

(* wildcards: * any text, ? any character, [..] [!..] [^..] one character (not) of a set, which may contain ranges *)
STAR == 42  LB == 91  RB == 93  EXCL == 33  CARET == 94  DASH == 45
ClassEnd(p, i) == \* position of the closing bracket of the class that opens at i, 0 if there is none
   LET a == IF i < Len(p) /\ p[i + 1] \in {EXCL, CARET} THEN i + 2 ELSE i + 1 IN FindAny(p, a + 1, {RB})
RECURSIVE InSet(_, _, _, _), Match(_, _, _, _)
InSet(p, i, e, c) == IF i >= e THEN FALSE
   ELSE IF i + 2 < e /\ p[i + 1] = DASH THEN (c >= p[i] /\ c <= p[i + 2]) \/ InSet(p, i + 3, e, c)
   ELSE c = p[i] \/ InSet(p, i + 1, e, c)
Match(p, i, s, j) ==
   IF i > Len(p) THEN j > Len(s)
   ELSE CASE p[i] = STAR -> Match(p, i + 1, s, j) \/ (j <= Len(s) /\ Match(p, i, s, j + 1))
          [] p[i] = QM -> j <= Len(s) /\ Match(p, i + 1, s, j + 1)
          [] p[i] = LB /\ ClassEnd(p, i) > 0 ->
               LET e == ClassEnd(p, i) neg == p[i + 1] \in {EXCL, CARET} IN
               j <= Len(s) /\ (InSet(p, IF neg THEN i + 2 ELSE i + 1, e, s[j]) # neg) /\ Match(p, e + 1, s, j + 1)
          [] OTHER -> j <= Len(s) /\ p[i] = s[j] /\ Match(p, i + 1, s, j + 1)
Matches(s, p) == Match(p, 1, s, 1)
MatchAny(s, l) == \E i \in DOMAIN l : Matches(s, l[i])

(* canonical text of the number that text starts with; numbers may be too large for the model, so digits only *)
RECURSIVE DigitsAt(_, _), NoZeros(_)
DigitsAt(s, p) == IF p <= Len(s) /\ s[p] \in 48..57 THEN <<s[p]>> \o DigitsAt(s, p + 1) ELSE <<>>
NoZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN NoZeros(Tail(d)) ELSE d
NumText(s) == LET p == SkipWs(s, 1) sg == p <= Len(s) /\ s[p] \in {43, 45} d == NoZeros(DigitsAt(s, IF sg THEN p + 1 ELSE p)) IN
   IF d = <<>> THEN Fail ELSE OkV(IF sg /\ s[p] = 45 /\ d # <<48>> THEN <<45>> \o d ELSE d)
Pad2(n) == IF n < 10 THEN <<48>> \o NatCodes(n) ELSE NatCodes(n)
TimeText(n) == LET h == n \div 3600 m == (n % 3600) \div 60 sec == n % 60 IN
   IF h > 0 THEN NatCodes(h) \o <<58>> \o Pad2(m) \o <<58>> \o Pad2(sec)
   ELSE IF m > 0 THEN NatCodes(m) \o <<58>> \o Pad2(sec)
   ELSE IF n >= 10 THEN <<48, 58>> \o Pad2(sec) ELSE NatCodes(n) \o <<46, 48, 48, 48>>
True3 == {<<49>>, <<116, 114, 117, 101>>, <<121, 101, 115>>}
False3 == {<<48>>, <<102, 97, 108, 115, 101>>, <<110, 111>>}
RECURSIVE StackRun(_, _)
StackRun(l, st) == IF l = <<>> THEN st[Len(st)]
   ELSE LET c == Head(l) IN
     CASE c.c = "push" -> StackRun(Tail(l), Append(st, st[Len(st)] \o c.s))
       [] c.c = "pop" -> StackRun(Tail(l), IF Len(st) > 1 THEN SubSeq(st, 1, Len(st) - 1) ELSE st)
       [] c.c = "set" -> StackRun(Tail(l), IF c.s = <<>> THEN <<<<>>>> ELSE <<<<>>, c.s>>)

Ret(o) ==
  CASE o.op = "left" -> OkV(Left(o.s, o.n))
    [] o.op = "right" -> OkV(Right(o.s, o.n))
    [] o.op = "mid" -> IF o.n > Len(o.s) THEN Fail ELSE OkV(Sub(o.s, o.n + 1, IF o.m < 0 THEN Len(o.s) ELSE o.n + o.m))
    [] o.op = "in" -> OkV(IF o.n > Len(o.s) THEN -1 ELSE Idx(Find(o.s, o.x, o.n + 1)))
    [] o.op = "nth" -> OkV(IF o.n = 0 THEN 0 ELSE Idx(Nth(o.s, o.x, o.n, 1)))
    [] o.op = "begins" -> OkV(Begins(o.s, o.x))
    [] o.op = "begins_at" -> OkV(o.n < Len(o.s) /\ StartsAt(o.s, o.n + 1, o.x))
    [] o.op = "ends" -> OkV(Ends(o.s, o.x))
    [] o.op = "contains" -> OkV(Find(o.s, o.x, 1) > 0)
    [] o.op = "char" -> OkV([b |-> o.s # <<>> /\ o.s[1] = o.c, e |-> o.s # <<>> /\ o.s[Len(o.s)] = o.c, c |-> Has(o.s, o.c)])
    [] o.op = "trim" -> OkV([t |-> Trim(o.s, Rng(o.x)), l |-> TrimL(o.s, Rng(o.x)), r |-> TrimR(o.s, Rng(o.x))])
    [] o.op = "trim_ws" -> OkV([t |-> Trim(o.s, Ws), l |-> TrimL(o.s, Ws), r |-> TrimR(o.s, Ws)])
    [] o.op = "split" -> OkV(Split(o.s, Rng(o.x)))
    [] o.op = "split_first" -> OkV(At(o.s, FindAny(o.s, 1, Rng(o.x))))
    [] o.op = "split_last" -> OkV(At(o.s, LastIn(o.s, Rng(o.x))))
    [] o.op = "replace" -> OkV(Repl(o.s, o.x, o.y))
    [] o.op = "replace_char" -> OkV([i \in DOMAIN o.s |-> IF o.s[i] = o.c THEN o.d ELSE o.s[i]])
    [] o.op = "latin" -> OkV(Cat([i \in DOMAIN o.s |-> Latin(o.s[i])]))
    [] o.op = "case" -> OkV([l |-> Map1(o.s, LowerC), u |-> Map1(o.s, UpperC)])
    [] o.op = "copy" -> OkV([n |-> IF o.n = 0 THEN 0 ELSE Min2(o.n - 1, Len(o.s)), s |-> Sub(o.s, 1, Max2(o.n - 1, 0))])
    [] o.op = "keyval" -> OkV(KeyVal(o.s, Rng(o.x)))
    [] o.op = "concat" -> OkV(JoinNE(o.l, o.x))
    [] o.op = "concat2" -> OkV(IF o.s = <<>> THEN o.x ELSE IF o.x = <<>> THEN o.s ELSE o.s \o <<o.c>> \o o.x)
    [] o.op = "append" -> OkV(AppendD(o.s, o.x, o.y))
    [] o.op = "format" -> OkV(<<60>> \o o.s \o <<124>> \o IntCodes(o.n) \o <<62>>)
    [] o.op = "any_of" -> OkV(o.s \in {<<>>, <<97>>, <<97, 98>>})
    [] o.op = "match" -> OkV(Matches(o.s, o.x))
    [] o.op = "matcher" -> LET l == Split(o.x, {59}) IN OkV([m |-> MatchAny(o.s, l), n |-> l])
    [] o.op = "is_pattern" -> OkV(Has(o.s, STAR) \/ Has(o.s, QM))
    [] o.op = "num" -> NumText(o.s)
    [] o.op = "int" -> OkV([t |-> IntCodes(o.n), v |-> o.n])
    [] o.op = "bool" -> IF o.s \in True3 THEN OkV(TRUE) ELSE IF o.s \in False3 THEN OkV(FALSE) ELSE Fail
    [] o.op = "time" -> OkV(TimeText(o.n))
    [] o.op = "list" -> OkV(<<91, 32>> \o Cat([i \in DOMAIN o.v |-> IntCodes(o.v[i]) \o <<32>>]) \o <<93>>)
    [] o.op = "stack" -> OkV(StackRun(o.l, <<<<>>>>))
    [] o.op = "dict" -> LET i == CHOOSE i \in 0..Len(o.l) : (i > 0 => o.l[i].k = o.s) /\ (i = 0 => \A j \in DOMAIN o.l : o.l[j].k # o.s) /\ \A j \in 1..(i - 1) : o.l[j].k # o.s
                            r == CHOOSE r \in 0..Len(o.l) : (r > 0 => o.l[r].n = o.n) /\ (r = 0 => \A j \in DOMAIN o.l : o.l[j].n # o.n) /\ \A j \in 1..(r - 1) : o.l[j].n # o.n
                        IN OkV([e |-> IF i = 0 THEN Fail ELSE OkV(o.l[i].n), d |-> IF i = 0 THEN -7 ELSE o.l[i].n, s |-> IF r = 0 THEN Fail ELSE OkV(o.l[r].k)])
    (* quoting *)
    [] o.op = "encode" -> OkV(EncodeChar(o.c))
    [] o.op = "decode" -> IF o.s = <<>> THEN Fail ELSE LET d == Decode(o.s, 1, Len(o.s)) IN OkV([c |-> d.c, n |-> d.n])
    [] o.op = "quoted" -> OkV([q |-> Quoted(o.s), u |-> o.s])
    [] o.op = "try_quoted" -> LET q == TryQuoted(o.s, Rng(o.x)) IN OkV([n |-> NeedsQuotes(o.s, Rng(o.x)), q |-> q, u |-> TryUnquoted(q)])
    [] o.op = "unquoted" -> OkV(TryUnquoted(o.s))
=============================================================================
