-------------------------------- MODULE Zml ---------------------------------
(* The ZML format: reader, writers, and the trees that ZML can denote.                             *)
(* node = [v |-> text, c |-> sequence of [k |-> text, n |-> node]].                                *)
EXTENDS Text

N(v, c) == [v |-> v, c |-> c]
Empty == N(<<>>, <<>>)
Kid(k, n) == [k |-> k, n |-> n]

OpE == <<61>>  OpC == <<58, 32>>  OpL == <<123>>  OpR == <<125>>  OpA == <<91>>  OpB == <<93>>  OpH == <<35>>
OpIn == <<60, 60>>  OpOut == <<62, 62>>  OpSl == <<47, 47>>  OpCo == <<47, 42>>  OpCe == <<42, 47>>
Lex == [d |-> {0, 32, 10, 13, 9, 11}, q |-> {QUOTE, APOS}, o |-> <<OpC, OpIn, OpOut, OpSl, OpCo, OpCe, OpE, OpL, OpR, OpA, OpB, OpH>>]

(* the next token that is not a comment *)
RECURSIVE ZTok(_, _)
ZTok(s, p) ==
  LET t == Token(s, p, Lex) IN
  IF ~t.ok \/ t.q THEN t
  ELSE IF t.t \in {OpH, OpSl} THEN ZTok(s, LineEnd(s, t.p))
  ELSE IF t.t = OpCo THEN LET e == FindFrom(s, t.p, OpCe) IN
         IF e = 0 THEN [ok |-> FALSE, t |-> <<>>, q |-> FALSE, p |-> Len(s) + 1] ELSE ZTok(s, e + 2)
  ELSE t
Is(t, o) == ~t.q /\ t.t = o

(* trees under construction: Rs[1] is the document, Rs[2..] macros being defined; a place is [i, p] *)
RECURSIVE NAt(_, _), NPut(_, _, _)
NAt(n, p) == IF p = <<>> THEN n ELSE NAt(n.c[Head(p)].n, Tail(p))
NPut(n, p, m) == IF p = <<>> THEN m ELSE [n EXCEPT !.c[Head(p)].n = NPut(n.c[Head(p)].n, Tail(p), m)]
RAt(Rs, a) == NAt(Rs[a.i], a.p)
RPut(Rs, a, m) == [Rs EXCEPT ![a.i] = NPut(Rs[a.i], a.p, m)]
Kth(a, k) == [a EXCEPT !.p = Append(a.p, k)]

FirstKey(n, k) == IF \E i \in DOMAIN n.c : n.c[i].k = k THEN CHOOSE i \in DOMAIN n.c : n.c[i].k = k /\ \A j \in 1..(i - 1) : n.c[j].k # k ELSE 0
SelC(n, k) == LET i == FirstKey(n, k) IN
   IF i > 0 THEN i
   ELSE IF k # <<>> /\ k[1] = 35 THEN LET d == ParseInt(k, 2) IN IF d.ok /\ d.v \in DOMAIN n.c THEN d.v ELSE 0
   ELSE 0
RECURSIVE Walk(_, _)
Walk(n, ks) == IF ks = <<>> THEN [ok |-> TRUE, n |-> n]
               ELSE LET i == SelC(n, Head(ks)) IN IF i = 0 THEN [ok |-> FALSE, n |-> n] ELSE Walk(n.c[i].n, Tail(ks))
Ref(root, q) == Walk(root, SplitAll(q, 46))

LastMacro(M, k) == IF \E i \in DOMAIN M : M[i].k = k THEN CHOOSE i \in DOMAIN M : M[i].k = k /\ \A j \in (i + 1)..Len(M) : M[j].k # k ELSE 0
(* replace ${name} from position p on *)
RECURSIVE Inline(_, _, _)
Inline(t, p, M) ==
  LET b == FindFrom(t, p, <<DOLLAR, 123>>) IN
  IF b = 0 THEN [ok |-> TRUE, t |-> t]
  ELSE LET e == FindFrom(t, b, <<125>>) IN
    IF e = 0 THEN [ok |-> FALSE, t |-> t]
    ELSE LET m == LastMacro(M, <<DOLLAR>> \o SubSeq(t, b + 2, e - 1)) IN
      IF m = 0 THEN [ok |-> FALSE, t |-> t]
      ELSE Inline(SubSeq(t, 1, b - 1) \o M[m].n.v \o SubSeq(t, e + 1, Len(t)), b + Len(M[m].n.v), M)

ZErr == [ok |-> FALSE]
Graph(c) == c > 32
(* D: where included files come from, see Includes; D.files maps a path below the root to a text *)
RECURSIVE Layer(_, _, _, _, _, _, _, _), ZValue(_, _, _, _, _, _, _), ParseFile(_, _, _)
ParseDoc(s, D) == LET r == Layer(s, 1, <<>>, <<Empty>>, [i |-> 1, p |-> <<>>], <<>>, 0, D) IN
   IF r.ok THEN [ok |-> TRUE, n |-> r.Rs[1]] ELSE ZErr
NoFiles == [files |-> <<>>, dir |-> <<>>, open |-> {}]
Parse(s) == ParseDoc(s, NoFiles)
(* the folder part of a path and the place of a file named relative to it *)
DirOf(f) == LET S == {i \in DOMAIN f : f[i] = 47} IN IF S = {} THEN <<>> ELSE SubSeq(f, 1, (CHOOSE i \in S : \A j \in S : j <= i) - 1)
RECURSIVE NormParts(_, _)
NormParts(ps, acc) == IF ps = <<>> THEN acc ELSE LET p == Head(ps) IN
  NormParts(Tail(ps), IF p \in {<<>>, <<46>>} THEN acc ELSE IF p = <<46, 46>> /\ acc # <<>> /\ acc[Len(acc)] # p THEN (SubSeq(acc, 1, Len(acc) - 1)) ELSE Append(acc, p))
RECURSIVE Slashed(_)
Slashed(ps) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o <<47>> \o Slashed(Tail(ps))
Norm(f) == Slashed(NormParts(SplitAll(f, 47), <<>>))
Join(d, f) == Norm(IF d = <<>> THEN f ELSE d \o <<47>> \o f)
ParseFile(s, f, D) == ParseDoc(s, [D EXCEPT !.dir = DirOf(f), !.open = @ \cup {f}])

(* m0: number of macros visible when this scope was opened *)
Layer(s, p, close, Rs, a, M, m0, D) ==
  LET t == ZTok(s, p) IN
  IF ~t.ok THEN ZErr
  ELSE IF Is(t, close) THEN [ok |-> TRUE, p |-> t.p, Rs |-> Rs, M |-> SubSeq(M, 1, m0)]
  ELSE IF Is(t, <<>>) THEN ZErr
  ELSE IF Is(t, OpIn) THEN
    LET f == ZTok(s, t.p) e == IF f.ok THEN ZTok(s, f.p) ELSE f IN
    IF ~f.ok \/ ~e.ok \/ ~Is(e, OpOut) THEN ZErr
    ELSE LET name == IF f.t # <<>> /\ f.t[1] = 47 THEN Norm(f.t) ELSE Join(D.dir, f.t) IN
      IF name \in D.open \/ name \notin DOMAIN D.files THEN ZErr
      ELSE LET r == ParseFile(D.files[name], name, D) n == RAt(Rs, a) IN
        IF ~r.ok THEN ZErr ELSE Layer(s, e.p, close, RPut(Rs, a, [n EXCEPT !.c = n.c \o r.n.c]), a, M, m0, D)
  ELSE LET n == RAt(Rs, a) IN
    IF close = OpB
    THEN LET R1 == RPut(Rs, a, [n EXCEPT !.c = Append(n.c, Kid(<<>>, Empty))])
             r == ZValue(s, t, R1, Kth(a, Len(n.c) + 1), M, D, TRUE)
         IN IF r.ok THEN Layer(s, r.p, close, r.Rs, a, r.M, m0, D) ELSE ZErr
    ELSE IF Is(t, OpL) \/ Is(t, OpA)
    THEN IF n.c = <<>> THEN ZErr
         ELSE LET r == ZValue(s, t, Rs, Kth(a, Len(n.c)), M, D, TRUE) IN IF r.ok THEN Layer(s, r.p, close, r.Rs, a, r.M, m0, D) ELSE ZErr
    ELSE IF t.t = <<>> \/ (~t.q /\ ~Graph(t.t[1])) THEN ZErr
    ELSE LET mac == t.t[1] = DOLLAR
             R1 == IF mac THEN Append(Rs, Empty) ELSE RPut(Rs, a, [n EXCEPT !.c = Append(n.c, Kid(t.t, Empty))])
             a1 == IF mac THEN [i |-> Len(R1), p |-> <<>>] ELSE Kth(a, Len(n.c) + 1)
             t2 == ZTok(s, t.p)
             eq == t2.ok /\ (Is(t2, OpE) \/ Is(t2, OpC))
             t3 == IF eq THEN ZTok(s, t2.p) ELSE t2
         IN IF ~t2.ok \/ ~t3.ok THEN ZErr
            ELSE IF eq /\ Is(t3, <<>>) THEN ZErr
            ELSE IF ~eq /\ ~Is(t2, OpL) /\ ~Is(t2, OpA) THEN ZErr
            ELSE LET r == ZValue(s, t3, R1, a1, M, D, TRUE) IN
              IF ~r.ok THEN ZErr
              ELSE IF mac THEN Layer(s, r.p, close, SubSeq(r.Rs, 1, Len(Rs)), a, Append(r.M, Kid(t.t, r.Rs[Len(R1)])), m0, D)
              ELSE Layer(s, r.p, close, r.Rs, a, r.M, m0, D)

(* the value that starts with token t is assigned to the node at a *)
ZValue(s, t, Rs, a, M, D, x) ==
  IF Is(t, OpL) THEN Layer(s, t.p, OpR, Rs, a, M, Len(M), D)
  ELSE IF Is(t, OpA) THEN Layer(s, t.p, OpB, Rs, a, M, Len(M), D)
  ELSE IF t.t # <<>> /\ t.t[1] = AT THEN
    LET r == Ref(Rs[1], SubSeq(t.t, 2, Len(t.t))) IN
    IF r.ok THEN [ok |-> TRUE, p |-> t.p, Rs |-> RPut(Rs, a, r.n), M |-> M] ELSE ZErr
  ELSE IF Len(t.t) >= 2 /\ t.t[1] = DOLLAR /\ t.t[2] # 123 THEN
    LET m == LastMacro(M, t.t) IN
    IF m > 0 THEN [ok |-> TRUE, p |-> t.p, Rs |-> RPut(Rs, a, M[m].n), M |-> M] ELSE ZErr
  ELSE LET r == Inline(t.t, 1, M) IN
    IF r.ok THEN [ok |-> TRUE, p |-> t.p, Rs |-> RPut(Rs, a, [RAt(Rs, a) EXCEPT !.v = r.t]), M |-> M] ELSE ZErr

----------------------------------------------------------------------------
(* the trees that ZML can denote *)
IsArray(n) == \A i \in DOMAIN n.c : n.c[i].k = <<>>
ValOK(v) == /\ v = <<>> \/ v[1] # AT
            /\ ~(Len(v) >= 2 /\ v[1] = DOLLAR)
            /\ FindFrom(v, 1, <<DOLLAR, 123>>) = 0
RECURSIVE NodeOK(_)
NodeOK(n) == /\ ValOK(n.v)
             /\ \/ n.c # <<>> /\ IsArray(n) /\ \A i \in DOMAIN n.c : n.c[i].n.v = <<>> \/ n.c[i].n.c = <<>>
                \/ \A i \in DOMAIN n.c : n.c[i].k # <<>> /\ n.c[i].k[1] # DOLLAR
             /\ \A i \in DOMAIN n.c : NodeOK(n.c[i].n)
DocOK(n) == n.v = <<>> /\ NodeOK(n) /\ (n.c = <<>> \/ ~IsArray(n))

(* two writers: on one line and one line per item *)
Special == {123, 125, 91, 93, 35, 60, 62, 92, 47, 61, 58, 39}
WHead(k, n, eq) == LET val == n.v # <<>> \/ n.c = <<>> IN
   (IF k # <<>> THEN TryQuoted(k, Special) ELSE <<>>) \o (IF k # <<>> /\ val THEN eq ELSE <<>>) \o (IF val THEN TryQuoted(n.v, Special) ELSE <<>>)
RECURSIVE WConcise(_, _, _), WPretty(_, _, _)
WConcise(k, n, lv) ==
  LET e(i) == (IF i > 1 THEN <<SP>> ELSE <<>>) \o WConcise(n.c[i].k, n.c[i].n, lv + 1)
      body == Cat([i \in DOMAIN n.c |-> e(i)])
  IN (IF lv = 0 THEN <<>> ELSE WHead(k, n, <<61>>)) \o
     (IF n.c = <<>> THEN <<>> ELSE IF lv = 0 THEN body ELSE IF IsArray(n) THEN <<91>> \o body \o <<93>> ELSE <<123>> \o body \o <<125>>)
WPretty(k, n, lv) ==
  LET ind == [i \in 1..Max2(lv - 1, 0) |-> TAB]
      body == Cat([i \in DOMAIN n.c |-> WPretty(n.c[i].k, n.c[i].n, lv + 1) \o <<NL>>])
  IN ind \o (IF lv = 0 THEN <<>> ELSE WHead(k, n, <<SP, 61, SP>>)) \o
     (IF n.c = <<>> THEN <<>> ELSE IF lv = 0 THEN body
      ELSE (IF k = <<>> THEN <<>> ELSE <<SP>>) \o (IF IsArray(n) THEN <<91, NL>> ELSE <<123, NL>>) \o body \o ind \o (IF IsArray(n) THEN <<93>> ELSE <<125>>))
=============================================================================
