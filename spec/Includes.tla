------------------------------ MODULE Includes ------------------------------
(* Files that include each other: the ZML directive << file >>, and nodes that name a file to insert *)
(* or to merge.  A world is a function from paths to texts; what is not in it cannot be read.       *)
EXTENDS Zml

World(w) == [files |-> [f \in {w[i].f : i \in DOMAIN w} |-> LET i == CHOOSE i \in DOMAIN w : w[i].f = f IN w[i].s], dir |-> <<>>, open |-> {}]
LoadZml(D, f) == IF f \in DOMAIN D.files THEN ParseFile(D.files[f], f, D) ELSE ZErr
(* the files that were included, with repetitions, for a text that can be read *)
RECURSIVE Incl(_, _, _)
Incl(D, dir, s) ==
  LET f[p \in 1..(Len(s) + 1)] ==
        LET t == ZTok(s, p) IN
        IF ~t.ok \/ Is(t, <<>>) THEN <<>>
        ELSE IF ~Is(t, OpIn) THEN f[t.p]
        ELSE LET g == ZTok(s, t.p) name == IF g.t[1] = 47 THEN Norm(g.t) ELSE Join(dir, g.t) IN
             Incl(D, DirOf(name), D.files[name]) \o <<name>> \o f[ZTok(s, g.p).p]
  IN f[1]

(* nodes with the key d name a file *)
MaxLevel == 100
RECURSIVE MergeN(_, _), LoadInc(_, _, _, _, _), Res(_, _, _, _, _, _, _)
MergeN(n, o) ==
  LET f[i \in 0..Len(o.c)] == IF i = 0 THEN n ELSE
         LET m == f[i - 1] j == FirstKey(m, o.c[i].k) IN
         IF j = 0 THEN [m EXCEPT !.c = Append(m.c, o.c[i])] ELSE [m EXCEPT !.c[j].n = MergeN(m.c[j].n, o.c[i].n)]
  IN f[Len(o.c)]
KFile == <<102, 105, 108, 101>>
KMerge == <<109, 101, 114, 103, 101, 95, 99, 104, 105, 108, 100, 114, 101, 110>>
TrueT == {<<49>>, <<116, 114, 117, 101>>}  FalseT == {<<48>>, <<102, 97, 108, 115, 101>>}
LoadInc(D, f, d, open, lv) ==
  IF lv >= MaxLevel \/ f \in open THEN ZErr
  ELSE LET r == LoadZml(D, f) IN IF r.ok THEN Res(D, r.n, 1, f, d, open \cup {f}, lv) ELSE ZErr
(* the children of n from the i-th on *)
Res(D, n, i, f, d, open, lv) ==
  IF i > Len(n.c) THEN [ok |-> TRUE, n |-> n]
  ELSE IF n.c[i].k # d THEN
    LET r == Res(D, n.c[i].n, 1, f, d, open, lv) IN IF r.ok THEN Res(D, [n EXCEPT !.c[i].n = r.n], i + 1, f, d, open, lv) ELSE ZErr
  ELSE LET x == n.c[i].n jf == FirstKey(x, KFile) jm == FirstKey(x, KMerge) IN
    IF jf = 0 THEN ZErr
    ELSE IF jm > 0 /\ x.c[jm].n.v \notin TrueT \cup FalseT THEN ZErr
    ELSE LET r == LoadInc(D, Join(DirOf(f), x.c[jf].n.v), d, open, lv + 1) IN
      IF ~r.ok THEN ZErr
      ELSE IF Len(r.n.c) # 1 THEN ZErr
      ELSE LET rest == [n EXCEPT !.c = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))] IN
        IF jm > 0 /\ x.c[jm].n.v \in TrueT THEN Res(D, MergeN(rest, r.n.c[1].n), 1, f, d, open, lv)
        ELSE Res(D, [rest EXCEPT !.c = SubSeq(@, 1, i - 1) \o r.n.c \o SubSeq(@, i, Len(@))], i + 1, f, d, open, lv)

Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
RetZ(D, f) == LET r == LoadZml(D, f) IN IF r.ok THEN OkV(r.n) ELSE Fail
RetText(D, s) == LET r == ParseDoc(s, D) IN IF r.ok THEN OkV(r.n) ELSE Fail
RetInc(D, f, d) == LET r == LoadInc(D, f, d, {}, 0) IN IF r.ok THEN OkV(r.n) ELSE Fail
=============================================================================
