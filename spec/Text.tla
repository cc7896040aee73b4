-------------------------------- MODULE Text --------------------------------
(* Text as a sequence of character codes: quoting, decoding and the tokenizer.                     *)
EXTENDS Conf

QUOTE == 34  APOS == 39  BSL == 92  QM == 63  DOLLAR == 36  AT == 64  NL == 10  SP == 32  TAB == 9
Has(s, c) == \E i \in DOMAIN s : s[i] = c
Rng(s) == {s[i] : i \in DOMAIN s}
StartsAt(s, p, x) == p + Len(x) - 1 <= Len(s) /\ \A i \in DOMAIN x : s[p + i - 1] = x[i]
(* first position >= p at which x occurs; 0 if there is none *)
RECURSIVE FindFrom(_, _, _)
FindFrom(s, p, x) == IF p + Len(x) - 1 > Len(s) THEN 0 ELSE IF StartsAt(s, p, x) THEN p ELSE FindFrom(s, p + 1, x)
RECURSIVE FindAny(_, _, _)
FindAny(s, p, S) == IF p > Len(s) THEN 0 ELSE IF s[p] \in S THEN p ELSE FindAny(s, p + 1, S)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

Octal(n) == <<BSL, 48 + (n \div 64), 48 + ((n \div 8) % 8), 48 + (n % 8)>>
EncodeChar(c) == CASE c = QUOTE -> <<BSL, QUOTE>> [] c = BSL -> <<BSL, BSL>> [] c = 13 -> <<BSL, 114>> [] c = NL -> <<BSL, 110>>
                   [] c = TAB -> <<BSL, 116>> [] c < 32 -> Octal(c) [] OTHER -> <<c>>
Quoted(s) == <<QUOTE>> \o Cat([i \in DOMAIN s |-> EncodeChar(s[i])]) \o <<QUOTE>>
NeedsQuotes(s, special) == s = <<>> \/ \E i \in DOMAIN s : s[i] < 33 \/ s[i] = QUOTE \/ s[i] \in special
TryQuoted(s, special) == IF NeedsQuotes(s, special) THEN Quoted(s) ELSE s

(* the character at position p, where e is the last position that may be looked at: [c, n consumed] *)
OctDigits(s, p, e) == LET f[k \in 0..3] == IF k = 3 \/ p + k > e \/ s[p + k] \notin 48..55 THEN k ELSE f[k + 1] IN f[0]
OctVal(s, p, n) == LET f[k \in 0..n] == IF k = 0 THEN 0 ELSE f[k - 1] * 8 + s[p + k - 1] - 48 IN f[n]
Decode(s, p, e) ==
  IF s[p] # BSL \/ p = e THEN [c |-> s[p], n |-> 1]
  ELSE LET d == s[p + 1] IN
    CASE d = 0 -> [c |-> QM, n |-> 2] [] d = BSL -> [c |-> BSL, n |-> 2] [] d = QUOTE -> [c |-> QUOTE, n |-> 2]
      [] d = 114 -> [c |-> 13, n |-> 2] [] d = 110 -> [c |-> NL, n |-> 2] [] d = 116 -> [c |-> TAB, n |-> 2]
      [] OTHER -> LET k == OctDigits(s, p + 1, e) IN
           IF k > 0 /\ OctVal(s, p + 1, k) < 32 THEN [c |-> OctVal(s, p + 1, k), n |-> 1 + k] ELSE [c |-> QM, n |-> 1 + k]

RECURSIVE UnqFrom(_, _)
UnqFrom(s, p) == IF p > Len(s) \/ s[p] = QUOTE THEN <<>>
                 ELSE IF s[p] = BSL THEN LET d == Decode(s, p, Len(s)) IN <<d.c>> \o UnqFrom(s, p + d.n)
                 ELSE <<s[p]>> \o UnqFrom(s, p + 1)
TryUnquoted(s) == IF Len(s) < 2 \/ s[1] # QUOTE \/ s[Len(s)] # QUOTE THEN s ELSE UnqFrom(s, 2)

----------------------------------------------------------------------------
(* tokenizer: L = [d |-> delimiters, q |-> quotes, o |-> sequence of operators, longest first] *)
OpAt(s, p, L) == LET f[i \in 1..(Len(L.o) + 1)] == IF i > Len(L.o) THEN <<>> ELSE IF StartsAt(s, p, L.o[i]) THEN L.o[i] ELSE f[i + 1] IN f[1]
RECURSIVE SkipDelims(_, _, _), TokFrom(_, _, _, _, _), QuotedFrom(_, _, _, _)
SkipDelims(s, p, L) == IF p <= Len(s) /\ s[p] \in L.d THEN SkipDelims(s, p + 1, L) ELSE p
(* the part after an opening quote: [ok, t, p after the closing quote] *)
QuotedFrom(s, p, c, acc) ==
  IF p > Len(s) THEN [ok |-> FALSE, t |-> acc, p |-> p]
  ELSE IF s[p] = c THEN [ok |-> TRUE, t |-> acc, p |-> p + 1]
  ELSE IF s[p] = BSL THEN LET d == Decode(s, p, Len(s)) IN QuotedFrom(s, p + d.n, c, Append(acc, d.c))
  ELSE QuotedFrom(s, p + 1, c, Append(acc, s[p]))
(* token: text, whether part of it was quoted, next position, ok = all quotes closed *)
TokFrom(s, p, acc, q, L) ==
  IF p > Len(s) \/ s[p] \in L.d THEN [ok |-> TRUE, t |-> acc, q |-> q, p |-> p]
  ELSE IF s[p] \in L.q THEN LET r == QuotedFrom(s, p + 1, s[p], acc) IN
         IF r.ok THEN TokFrom(s, r.p, r.t, TRUE, L) ELSE [ok |-> FALSE, t |-> r.t, q |-> TRUE, p |-> r.p]
  ELSE LET o == OpAt(s, p, L) IN
       IF o = <<>> THEN TokFrom(s, p + 1, Append(acc, s[p]), q, L)
       ELSE IF acc = <<>> /\ ~q THEN [ok |-> TRUE, t |-> o, q |-> FALSE, p |-> p + Len(o)]
       ELSE [ok |-> TRUE, t |-> acc, q |-> q, p |-> p]
Token(s, p, L) == TokFrom(s, SkipDelims(s, p, L), <<>>, FALSE, L)
LineEnd(s, p) == LET e == FindAny(s, p, {10, 13, 0}) IN IF e = 0 THEN Len(s) + 1 ELSE e

(* numbers the way strtol reads them *)
RECURSIVE SkipWs(_, _), Digits(_, _, _)
SkipWs(s, p) == IF p <= Len(s) /\ s[p] \in {32, 9, 10, 11, 12, 13} THEN SkipWs(s, p + 1) ELSE p
Digits(s, p, acc) == IF p <= Len(s) /\ s[p] \in 48..57 THEN Digits(s, p + 1, acc * 10 + s[p] - 48) ELSE [v |-> acc, p |-> p]
ParseInt(s, p0) ==      \* [ok, v, p after it]
  LET p == SkipWs(s, p0)
      sg == p <= Len(s) /\ s[p] \in {43, 45}
      d == Digits(s, IF sg THEN p + 1 ELSE p, 0)
  IN IF d.p = (IF sg THEN p + 1 ELSE p) THEN [ok |-> FALSE, v |-> 0, p |-> p0]
     ELSE [ok |-> TRUE, v |-> IF sg /\ s[p] = 45 THEN -d.v ELSE d.v, p |-> d.p]
RECURSIVE NatCodes(_)
NatCodes(n) == IF n < 10 THEN <<48 + n>> ELSE NatCodes(n \div 10) \o <<48 + (n % 10)>>
IntCodes(n) == IF n < 0 THEN <<45>> \o NatCodes(-n) ELSE NatCodes(n)
(* split at every occurrence of a character, keeping empty parts *)
RECURSIVE SplitAll(_, _)
SplitAll(s, c) == LET p == FindAny(s, 1, {c}) IN
   IF p = 0 THEN <<s>> ELSE <<SubSeq(s, 1, p - 1)>> \o SplitAll(SubSeq(s, p + 1, Len(s)), c)
=============================================================================
