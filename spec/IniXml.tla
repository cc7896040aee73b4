------------------------------- MODULE IniXml -------------------------------
(* The INI and XML formats: readers, writers, and the trees each of them can denote.              *)
(* node = [v |-> text, c |-> sequence of [k |-> text, n |-> node]].                                *)
EXTENDS Text

N(v, c) == [v |-> v, c |-> c]
Empty == N(<<>>, <<>>)
Kid(k, n) == [k |-> k, n |-> n]
Err == [ok |-> FALSE]
Good(n) == [ok |-> TRUE, n |-> n]

----------------------------------------------------------------------------
(* INI *)
TrimWs == {32, 9, 13, 10, 12, 11}
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ s[1] \in TrimWs THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in TrimWs THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))
MaxLine == 1023
SetKid(n, k, v) ==
  IF \E i \in DOMAIN n.c : n.c[i].k = k
  THEN LET i == CHOOSE i \in DOMAIN n.c : n.c[i].k = k /\ \A j \in 1..(i - 1) : n.c[j].k # k IN [n EXCEPT !.c[i].n = N(v, <<>>)]
  ELSE [n EXCEPT !.c = Append(@, Kid(k, N(v, <<>>)))]
(* g: place of the current group among the children, 0 = none yet *)
RECURSIVE IniLines(_, _, _)
IniLines(ls, n, g) ==
  IF ls = <<>> THEN Good(n) ELSE LET s == Head(ls) IN
  IF Len(s) > MaxLine THEN Err
  ELSE IF s = <<>> \/ s[1] = 59 THEN IniLines(Tail(ls), n, g)
  ELSE IF Len(s) > 2 /\ s[1] = 91 /\ s[Len(s)] = 93
  THEN IniLines(Tail(ls), [n EXCEPT !.c = Append(@, Kid(SubSeq(s, 2, Len(s) - 1), Empty))], Len(n.c) + 1)
  ELSE LET e == FindAny(s, 1, {61}) IN
    IF e = 0 THEN Err
    ELSE LET k == Trim(SubSeq(s, 1, e - 1)) v == Trim(SubSeq(s, e + 1, Len(s))) IN
      IniLines(Tail(ls), IF g = 0 THEN SetKid(n, k, v) ELSE [n EXCEPT !.c[g].n = SetKid(@, k, v)], g)
IniParse(s) == IniLines(SplitAll(s, NL), Empty, 0)

(* items come first, then the groups *)
IniItems(n) == Cat([i \in DOMAIN n.c |-> n.c[i].k \o <<61>> \o n.c[i].n.v \o <<NL>>])
IsItem(k) == k.n.c = <<>>
IniSorted(n) == [n EXCEPT !.c = SelectSeq(n.c, IsItem) \o SelectSeq(n.c, LAMBDA k : ~IsItem(k))]
IniWrite(n) == LET m == IniSorted(n) IN
  Cat([i \in DOMAIN m.c |-> IF IsItem(m.c[i]) THEN m.c[i].k \o <<61>> \o m.c[i].n.v \o <<NL>> ELSE <<91>> \o m.c[i].k \o <<93, NL>> \o IniItems(m.c[i].n)])
KeysDiffer(c) == \A i, j \in DOMAIN c : i # j => c[i].k # c[j].k
IniKey(k) == k # <<>> /\ k = Trim(k) /\ ~Has(k, 61) /\ ~Has(k, NL) /\ ~Has(k, 0) /\ k[1] \notin {59, 91}
IniVal(v) == v = Trim(v) /\ ~Has(v, NL) /\ ~Has(v, 0)
IniLen(k, v) == Len(k) + Len(v) + 2 <= MaxLine
(* the trees INI can denote *)
IniOK(n) ==
  /\ n.v = <<>> /\ KeysDiffer(SelectSeq(n.c, IsItem))
  /\ \A i \in DOMAIN n.c : LET k == n.c[i].k x == n.c[i].n IN
       IF x.c = <<>> THEN IniKey(k) /\ IniVal(x.v) /\ x.v # <<>> /\ IniLen(k, x.v)
       ELSE /\ x.v = <<>> /\ k # <<>> /\ ~Has(k, NL) /\ ~Has(k, 0) /\ Len(k) + 2 <= MaxLine /\ KeysDiffer(x.c)
            /\ \A j \in DOMAIN x.c : LET y == x.c[j] IN IniKey(y.k) /\ IniVal(y.n.v) /\ y.n.c = <<>> /\ IniLen(y.k, y.n.v)

----------------------------------------------------------------------------
(* XML *)
XWs == {32, 10, 13, 9}
NameEnd == XWs \cup {47, 62, 63, 0}
AttrEnd == XWs \cup {47, 60, 62, 61, 63, 33, 0}
At(s, p) == IF p <= Len(s) THEN s[p] ELSE 0
RECURSIVE XSkip(_, _), XName(_, _, _)
XSkip(s, p) == IF At(s, p) \in XWs THEN XSkip(s, p + 1) ELSE p
XName(s, p, E) == IF At(s, p) \in E THEN p ELSE XName(s, p + 1, E)
Low(c) == IF c \in 65..90 THEN c + 32 ELSE c
HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> 99
RECURSIVE XNum(_, _, _, _), XExpand(_, _, _, _)
XNum(s, p, b, acc) == IF HexVal(At(s, p)) = 99 \/ acc > 1114111 THEN [p |-> p, n |-> acc] ELSE XNum(s, p + 1, b, acc * b + HexVal(At(s, p)))
Utf8(n) == IF n < 128 THEN <<n>> ELSE IF n < 2048 THEN <<192 + (n \div 64), 128 + (n % 64)>>
           ELSE IF n < 65536 THEN <<224 + (n \div 4096), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
           ELSE <<240 + (n \div 262144), 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
Entities == << <<<<38, 97, 109, 112, 59>>, 38>>, <<<<38, 97, 112, 111, 115, 59>>, 39>>, <<<<38, 113, 117, 111, 116, 59>>, 34>>, <<<<38, 103, 116, 59>>, 62>>, <<<<38, 108, 116, 59>>, 60>> >>
EntAt(s, p) == LET f[i \in 1..6] == IF i = 6 THEN 0 ELSE IF StartsAt(s, p, Entities[i][1]) THEN i ELSE f[i + 1] IN f[1]
(* text up to one of the characters E *)
XExpand(s, p, E, acc) ==
  IF At(s, p) \in E THEN [ok |-> TRUE, t |-> acc, p |-> p]
  ELSE IF s[p] # 38 THEN XExpand(s, p + 1, E, Append(acc, s[p]))
  ELSE LET i == EntAt(s, p) IN
    IF i > 0 THEN XExpand(s, p + Len(Entities[i][1]), E, Append(acc, Entities[i][2]))
    ELSE IF At(s, p + 1) # 35 THEN XExpand(s, p + 1, E, Append(acc, 38))
    ELSE LET d == IF At(s, p + 2) = 120 THEN XNum(s, p + 3, 16, 0) ELSE XNum(s, p + 2, 10, 0) IN
      IF d.n > 1114111 \/ At(s, d.p) # 59 THEN [ok |-> FALSE] ELSE XExpand(s, d.p + 1, E, acc \o Utf8(d.n))

RECURSIVE XAttrs(_, _, _), XBracket(_, _, _), XDoctype(_, _)
XAttrs(s, p, n) ==
  IF At(s, p) \in AttrEnd THEN [ok |-> TRUE, n |-> n, p |-> p]
  ELSE LET e == XName(s, p, AttrEnd) q == XSkip(s, e) IN
    IF At(s, q) # 61 THEN Err
    ELSE LET r == XSkip(s, q + 1) c == At(s, r) IN
      IF c \notin {34, 39} THEN Err
      ELSE LET x == XExpand(s, r + 1, {c, 0}, <<>>) IN
        IF ~x.ok THEN Err ELSE IF At(s, x.p) # c THEN Err
        ELSE XAttrs(s, XSkip(s, x.p + 1), [n EXCEPT !.c = Append(@, Kid(SubSeq(s, p, e - 1), N(x.t, <<>>)))])
XBracket(s, p, d) == IF p > Len(s) THEN 0 ELSE IF d = 0 THEN p
  ELSE XBracket(s, p + 1, IF s[p] = 91 THEN d + 1 ELSE IF s[p] = 93 THEN d - 1 ELSE d)
XDoctype(s, p) == IF p > Len(s) THEN 0 ELSE IF s[p] = 62 THEN p + 1
  ELSE IF s[p] = 91 THEN LET q == XBracket(s, p + 1, 1) IN IF q = 0 THEN 0 ELSE XDoctype(s, q) ELSE XDoctype(s, p + 1)
After(s, p, x) == LET e == FindFrom(s, p, x) IN IF e = 0 THEN 0 ELSE e + Len(x)
(* what is neither an element nor text: the place after it, and the text of a CDATA section *)
XOther(s, p) ==
  IF s[p] = 63 THEN LET x == Low(At(s, p + 1)) = 120 /\ Low(At(s, p + 2)) = 109 /\ Low(At(s, p + 3)) = 108 /\ At(s, p + 4) \in XWs IN
       [p |-> After(s, IF x THEN p + 5 ELSE p + 1, <<63, 62>>), t |-> <<>>]
  ELSE IF StartsAt(s, p, <<33, 45, 45>>) THEN [p |-> After(s, p + 3, <<45, 45, 62>>), t |-> <<>>]
  ELSE IF StartsAt(s, p, <<33, 91, 67, 68, 65, 84, 65, 91>>) THEN LET e == FindFrom(s, p + 8, <<93, 93, 62>>) IN
       [p |-> IF e = 0 THEN 0 ELSE e + 3, t |-> IF e = 0 THEN <<>> ELSE SubSeq(s, p + 8, e - 1)]
  ELSE IF StartsAt(s, p, <<33, 68, 79, 67, 84, 89, 80, 69>>) /\ At(s, p + 8) \in XWs THEN [p |-> XDoctype(s, p + 9), t |-> <<>>]
  ELSE [p |-> After(s, p + 1, <<62>>), t |-> <<>>]
RECURSIVE XElem(_, _), XCont(_, _, _, _)
XElem(s, p) ==      \* p: after the <
  LET e == XName(s, p, NameEnd) k == SubSeq(s, p, e - 1) IN
  IF e = p THEN Err
  ELSE LET a == XAttrs(s, XSkip(s, e), Empty) IN
    IF ~a.ok THEN Err
    ELSE IF At(s, a.p) = 62 THEN XCont(s, a.p + 1, k, a.n)
    ELSE IF At(s, a.p) = 47 /\ At(s, a.p + 1) = 62 THEN [ok |-> TRUE, k |-> k, n |-> a.n, p |-> a.p + 2]
    ELSE Err
FirstText(n, t) == IF n.v = <<>> THEN [n EXCEPT !.v = t] ELSE n
XCont(s, p, k, n) ==
  LET q == XSkip(s, p) IN
  IF q > Len(s) THEN Err
  ELSE IF s[q] # 60 THEN
    LET x == XExpand(s, p, {60, 0}, <<>>) IN
    IF ~x.ok THEN Err ELSE IF x.p > Len(s) THEN Err ELSE XCont(s, x.p, k, FirstText(n, x.t))
  ELSE IF At(s, q + 1) = 47 THEN
    LET e == XName(s, q + 2, NameEnd) r == XSkip(s, e) IN
    IF SubSeq(s, q + 2, e - 1) # k \/ At(s, r) # 62 THEN Err ELSE [ok |-> TRUE, k |-> k, n |-> n, p |-> r + 1]
  ELSE IF At(s, q + 1) \in {63, 33} THEN LET o == XOther(s, q + 1) IN IF o.p = 0 THEN Err ELSE XCont(s, o.p, k, FirstText(n, o.t))
  ELSE LET x == XElem(s, q + 1) IN IF ~x.ok THEN Err ELSE XCont(s, x.p, k, [n EXCEPT !.c = Append(@, Kid(x.k, x.n))])
RECURSIVE XTop(_, _, _)
XTop(s, p, n) ==
  LET q == XSkip(s, p) IN
  IF q > Len(s) THEN Good(n)
  ELSE IF s[q] # 60 THEN Err
  ELSE IF At(s, q + 1) \in {63, 33} THEN LET o == XOther(s, q + 1) IN IF o.p = 0 THEN Err ELSE XTop(s, o.p, n)
  ELSE LET x == XElem(s, q + 1) IN IF ~x.ok THEN Err ELSE XTop(s, x.p, [n EXCEPT !.c = Append(@, Kid(x.k, x.n))])
XmlParse(s) == XTop(s, IF StartsAt(s, 1, <<239, 187, 191>>) THEN 4 ELSE 1, Empty)

XEnc(c) == CASE c = 60 -> <<38, 108, 116, 59>> [] c = 62 -> <<38, 103, 116, 59>> [] c = 39 -> <<38, 97, 112, 111, 115, 59>>
             [] c = 34 -> <<38, 113, 117, 111, 116, 59>> [] c = 38 -> <<38, 97, 109, 112, 59>> [] OTHER -> <<c>>
RECURSIVE XWrite(_)
XWrite(n) == Cat([i \in DOMAIN n.c |-> LET x == n.c[i] IN
   <<60>> \o x.k \o (IF x.n = Empty THEN <<47, 62>> ELSE <<62>> \o Cat([j \in DOMAIN x.n.v |-> XEnc(x.n.v[j])]) \o XWrite(x.n) \o <<60, 47>> \o x.k \o <<62>>) \o <<NL>>])
(* the trees XML can denote: a node has a text or children *)
XName1(k) == k # <<>> /\ \A i \in DOMAIN k : k[i] \notin NameEnd
XKey(k) == XName1(k) /\ k[1] \notin {33, 47, 60} /\ ~Has(k, 60) /\ \A i \in DOMAIN k : k[i] \notin {60, 38, 34, 39, 61}
RECURSIVE XNodeOK(_)
XNodeOK(n) == /\ n.v = <<>> \/ (n.c = <<>> /\ ~Has(n.v, 0) /\ \E i \in DOMAIN n.v : n.v[i] \notin XWs)
              /\ \A i \in DOMAIN n.c : XKey(n.c[i].k) /\ XNodeOK(n.c[i].n)
XmlOK(n) == n.v = <<>> /\ XNodeOK(n)

----------------------------------------------------------------------------
ReadAs(f, s) == IF f = "ini" THEN IniParse(s) ELSE XmlParse(s)
ReadRet(f, s) == LET r == ReadAs(f, s) IN IF r.ok THEN OkV(r.n) ELSE Fail
Denotes(f, n) == IF f = "ini" THEN IniOK(n) ELSE XmlOK(n)
BackFrom(f, n) == IF f = "ini" THEN IniSorted(n) ELSE n
Text_(f, n) == IF f = "ini" THEN IniWrite(n) ELSE XWrite(n)
=============================================================================
