------------------------------- MODULE FileSys -------------------------------
(* The file-system helpers on a tree of files.  t: component sequence -> "dir", "sock" or the text *)
(* of a file prefixed with ":".  cwd: current folder, ff: folder for find_file (a path as given).  *)
(* A path as given: [abs, c, slash]; the scratch folder is the root, shown as "R".                 *)
EXTENDS Conf

NoPath == [abs |-> FALSE, c |-> <<>>, slash |-> FALSE]
InitSt == [t |-> [q \in {<<>>} |-> "dir"], cwd |-> <<>>, ff |-> NoPath]
RECURSIVE JoinC(_)
JoinC(c) == IF c = <<>> THEN "" ELSE IF Len(c) = 1 THEN c[1] ELSE c[1] \o "/" \o JoinC(Tail(c))
Str(p) == (IF p.abs THEN (IF p.c = <<>> THEN "R" ELSE "R/") ELSE "") \o JoinC(p.c) \o (IF p.slash THEN "/" ELSE "")
Front1(q) == SubSeq(q, 1, Len(q) - 1)
Full(s, p) == (IF p.abs THEN <<>> ELSE s.cwd) \o p.c
Empty(p) == ~p.abs /\ p.c = <<>>
At(s, q) == IF q \in DOMAIN s.t THEN s.t[q] ELSE "none"
Node(s, p) == IF Empty(p) THEN "none" ELSE LET n == At(s, Full(s, p)) IN IF p.slash /\ n # "dir" THEN "none" ELSE n
IsFile(n) == n \notin {"none", "dir", "sock"}
Put(s, q, v) == [s EXCEPT !.t = [x \in (DOMAIN s.t) \cup {q} |-> IF x = q THEN v ELSE s.t[x]]]
RECURSIVE MkAll(_, _)
MkAll(s, q) == IF q = <<>> THEN [s |-> s, ok |-> FALSE]
               ELSE LET a == IF At(s, Front1(q)) = "dir" THEN s ELSE MkAll(s, Front1(q)).s IN
                    IF At(a, Front1(q)) = "dir" /\ At(a, q) = "none" THEN [s |-> Put(a, q, "dir"), ok |-> TRUE] ELSE [s |-> a, ok |-> FALSE]
Suffix(i) == " (" \o ToString(i) \o ")"
Cand(p, i) == IF i = 0 THEN p ELSE IF p.slash THEN [p EXCEPT !.c = Append(@, Suffix(i)), !.slash = FALSE]
              ELSE [p EXCEPT !.c[Len(p.c)] = @ \o Suffix(i)]
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Sub(p, f) == [abs |-> p.abs \/ (Empty(p) /\ f.abs), c |-> p.c \o f.c, slash |-> f.slash]
Under(s, q) == {x \in DOMAIN s.t : Len(x) > Len(q) /\ SubSeq(x, 1, Len(q)) = q}
FileName(p) == [abs |-> FALSE, c |-> <<p.c[Len(p.c)]>>, slash |-> FALSE]
RECURSIVE TryList(_, _)
TryList(s, ps) == IF ps = <<>> THEN NoPath ELSE
  LET p == IF ps[1].abs THEN ps[1] ELSE Sub(s.ff, ps[1]) IN IF IsFile(Node(s, p)) THEN p ELSE TryList(s, Tail(ps))
RECURSIVE TryDirs(_, _, _)
TryDirs(s, f, ds) == IF ds = <<>> THEN NoPath ELSE
  LET p == Sub(ds[1], f) IN IF IsFile(Node(s, p)) THEN p ELSE TryDirs(s, f, Tail(ds))
(* successive creation of n unique folders *)
RECURSIVE MkUniq(_, _, _, _)
MkUniq(s, p, max, i) == IF i >= max THEN [s |-> s, ok |-> FALSE, p |-> NoPath]
  ELSE LET m == MkAll(s, Full(s, Cand(p, i))) IN IF m.ok THEN [s |-> m.s, ok |-> TRUE, p |-> Cand(p, i)] ELSE MkUniq(s, p, max, i + 1)
RECURSIVE MkMany(_, _, _)
MkMany(s, p, n) == IF n = 0 THEN [s |-> s, ps |-> {}] ELSE
  LET m == MkUniq(s, p, 50, 0) r == MkMany(m.s, p, n - 1) IN [s |-> r.s, ps |-> r.ps \cup {Str(m.p)}]
Bag(S) == [x \in S \cup {""} |-> 1]
Opt(p) == OkV(IF Empty(p) THEN "" ELSE Str(p))

Apply(s, o) ==
  CASE o.op = "probe" -> LET n == Node(s, o.p) IN R(s, OkV(<<n # "none", IsFile(n), n = "dir">>))
    [] o.op = "mkdirs" -> LET m == MkAll(s, Full(s, o.p)) IN R(m.s, OkV(m.ok))
    [] o.op = "save" -> LET q == Full(s, o.p)
                            a == IF Len(o.p.c) = 1 /\ ~o.p.abs THEN s ELSE MkAll(s, Front1(q)).s
                            bad == At(a, Front1(q)) # "dir" \/ At(a, q) \in {"dir", "sock"}
                            old == IF o.app /\ At(a, q) # "none" THEN At(a, q) ELSE ":" IN
         IF bad THEN R(a, Fail) ELSE R(Put(a, q, old \o o.txt), Ok)
    [] o.op = "save_full" -> R(s, OkV(<<TRUE, TRUE>>))
    [] o.op = "load" -> LET n == Node(s, o.p) IN R(s, IF IsFile(n) THEN OkV(n) ELSE Fail)
    [] o.op = "copy" -> LET a == Node(s, o.p) b == Node(s, o.d) q == Full(s, o.d)
                            good == IsFile(a) /\ At(s, Front1(q)) = "dir" /\ ~o.d.slash /\ (b = "none" \/ (IsFile(b) /\ o.over /\ Full(s, o.p) # q)) IN
         IF good THEN R(Put(s, q, a), OkV(TRUE)) ELSE R(s, IF o.ec THEN OkV(FALSE) ELSE Fail)
    [] o.op = "remove" -> LET q == Full(s, o.p) n == Node(s, o.p) IN
         IF q = <<>> \/ q = s.cwd \/ n = "none" \/ Under(s, q) # {} THEN R(s, OkV(FALSE))
         ELSE R([s EXCEPT !.t = [x \in (DOMAIN s.t) \ {q} |-> s.t[x]]], OkV(TRUE))
    [] o.op = "find_unique" -> LET S == {i \in 0..(o.max - 1) : Node(s, Cand(o.p, i)) = "none"} IN
         R(s, IF S = {} THEN Fail ELSE OkV(Str(Cand(o.p, First(S)))))
    [] o.op = "create_unique" -> LET m == MkUniq(s, o.p, o.max, 0) IN R(m.s, IF m.ok THEN OkV(Str(m.p)) ELSE Fail)
    [] o.op = "race" -> LET m == MkMany(s, o.p, o.n) IN R(m.s, OkV(Bag(m.ps)))
    [] o.op = "ff" -> R([s EXCEPT !.ff = o.p], OkV(Str(o.p)))
    [] o.op = "ff_other" -> R(s, OkV(""))
    [] o.op = "find" -> LET p == TryList(s, o.ps) IN R(s, IF Empty(p) THEN Fail ELSE OkV(Str(p)))
    \* an absolute path that does not exist is not looked for anywhere else
    [] o.op = "find_abs" -> R(s, OkV(<<FALSE, FALSE, TRUE, TRUE>>))
    [] o.op = "try_find" -> R(s, Opt(TryList(s, o.ps)))
    [] o.op = "try_dirs" -> R(s, IF o.p.abs THEN (IF IsFile(Node(s, o.p)) THEN OkV(Str(o.p)) ELSE Opt(TryDirs(s, FileName(o.p), o.ds)))
                                 ELSE Opt(TryDirs(s, o.p, o.ds)))
    [] o.op = "list" -> LET q == Full(s, o.p) d(x) == Len(x) - Len(q)
                            inc(x) == (\E k \in DOMAIN o.inc : o.inc[k] = x[Len(x)]) /\ ~\E k \in DOMAIN o.exc : o.exc[k] = x[Len(x)]
                            S == {x \in Under(s, q) : (d(x) = 1 \/ (o.rec /\ (o.lv < 0 \/ d(x) <= o.lv + 1))) /\ inc(x)} IN
         R(s, IF Node(s, o.p) # "dir" THEN Fail
              ELSE OkV(Bag({Str([abs |-> o.p.abs, c |-> o.p.c \o SubSeq(x, Len(q) + 1, Len(x)), slash |-> FALSE]) : x \in S})))
    [] o.op = "cd" -> IF Node(s, o.p) = "dir" THEN R([s EXCEPT !.cwd = Full(s, o.p)], OkV(TRUE)) ELSE R(s, OkV(FALSE))
    [] o.op = "mtime" -> R(s, IF Node(s, o.p) = "none" THEN Fail ELSE OkV(o.m))
    [] o.op = "sock" -> IF At(s, o.p.c) # "none" \/ At(s, Front1(o.p.c)) # "dir" THEN R(s, Fail) ELSE R(Put(s, o.p.c, "sock"), Ok)
    [] o.op = "env" -> R(s, OkV(<<o.home \o "/.config", o.home, IF o.tmp = "" THEN "/tmp" ELSE o.tmp, TRUE>>))
Obs(s) == [t |-> [x \in {JoinC(q) : q \in DOMAIN s.t} |-> s.t[CHOOSE q \in DOMAIN s.t : JoinC(q) = x]], cwd |-> Str([abs |-> TRUE, c |-> s.cwd, slash |-> FALSE])]
InvTree(s) == \A q \in DOMAIN s.t : q # <<>> => At(s, Front1(q)) = "dir"

----------------------------------------------------------------------------
CONSTANTS Names, MaxDepth, MaxNodes, MaxLen
VARIABLES st, hist
vars == <<st, hist>>
Init == st = InitSt /\ hist = <<>>
Deep(s) == \A q \in DOMAIN s.t : Len(q) <= MaxDepth
Do(o) == LET r == Apply(st, o) IN
  /\ Len(hist) < MaxLen
  /\ Deep(r.st) /\ Cardinality(DOMAIN r.st.t) <= MaxNodes
  /\ st' = r.st
  /\ hist' = Append(hist, o @@ [ret |-> r.ret, obs |-> Obs(r.st)])
Cs == UNION {[1..n -> Names] : n \in 1..MaxDepth}
P(a, c, z) == [abs |-> a, c |-> c, slash |-> z]
Paths == {P(a, c, FALSE) : a \in BOOLEAN, c \in Cs}
Slashed == {P(TRUE, c, z) : c \in Cs, z \in BOOLEAN} \cup {P(FALSE, c, TRUE) : c \in Cs}
AllP == Paths \cup Slashed
Txt == ToString(Len(hist) + 1)
One == CHOOSE x \in Names : TRUE
U == Names \cup {n \o Suffix(i) : n \in Names, i \in 1..3} \cup {Suffix(i) : i \in 1..3}
SetSeq(S) == SetToSeq(S)
Pats == {[s |-> "*", n |-> SetSeq(U)], [s |-> "", n |-> <<>>], [s |-> One, n |-> <<One>>],
         [s |-> One \o "*", n |-> SetSeq({One} \cup {One \o Suffix(i) : i \in 1..3})],
         [s |-> "?; (*", n |-> SetSeq(Names \cup {Suffix(i) : i \in 1..3})]}
DoProbe == \E p \in AllP : Do([op |-> "probe", p |-> p])
DoMk == \E p \in AllP : Do([op |-> "mkdirs", p |-> p])
DoSave == \E p \in Paths, a, e \in BOOLEAN : Do([op |-> "save", p |-> p, app |-> a, ec |-> e, txt |-> Txt])
DoFull == \E a \in BOOLEAN : Do([op |-> "save_full", app |-> a])
DoLoad == \E p \in AllP, e \in BOOLEAN : Do([op |-> "load", p |-> p, ec |-> e])
DoCopy == \E p, d \in {P(TRUE, c, FALSE) : c \in Cs} \cup {P(FALSE, <<One>>, FALSE)}, over, ec \in BOOLEAN : Do([op |-> "copy", p |-> p, d |-> d, over |-> over, ec |-> ec])
DoRemove == \E p \in AllP : Do([op |-> "remove", p |-> p])
DoUnique == \E p \in AllP, m \in {0, 1, 2, 5} : Do([op |-> "find_unique", p |-> p, max |-> m]) \/ Do([op |-> "create_unique", p |-> p, max |-> m])
DoRace == \E p \in {P(TRUE, c, FALSE) : c \in Cs} : Do([op |-> "race", p |-> p, n |-> 2])
DoFf == (\E p \in {P(TRUE, <<One>>, FALSE), P(FALSE, <<One>>, TRUE), NoPath} : Do([op |-> "ff", p |-> p])) \/ Do([op |-> "ff_other", p |-> P(TRUE, <<One>>, FALSE)])
DoFind == \E p \in AllP, n \in Names : \E f \in {"find", "try_find"} : Do([op |-> f, ps |-> <<p, P(FALSE, <<n>>, FALSE)>>]) \/ Do([op |-> f, ps |-> <<p>>])
DoDirs == \E p \in Paths, x \in {<<>>, <<P(TRUE, <<>>, FALSE), P(TRUE, <<One>>, FALSE)>>, <<P(FALSE, <<One>>, TRUE), NoPath>>} : Do([op |-> "try_dirs", p |-> p, ds |-> x])
DoList == \E p \in {P(TRUE, <<>>, FALSE), P(TRUE, <<One>>, FALSE), P(FALSE, <<One>>, TRUE)}, a \in Pats, x \in {z \in Pats : z.s \in {"", One}}, rec \in BOOLEAN, lv \in {-1, 0, 1} :
          Do([op |-> "list", p |-> p, incs |-> a.s, inc |-> a.n, excs |-> x.s, exc |-> x.n, rec |-> rec, lv |-> lv])
DoCd == \E p \in {P(TRUE, <<>>, FALSE), P(TRUE, <<One>>, FALSE), P(FALSE, <<One>>, FALSE)} : Do([op |-> "cd", p |-> p])
DoAbs == Do([op |-> "find_abs"])
DoMtime == \E p \in {P(TRUE, <<n>>, FALSE) : n \in Names} : Do([op |-> "mtime", p |-> p, m |-> 1000000000 + Len(hist)])
DoSock == \E n \in Names : Do([op |-> "sock", p |-> P(TRUE, <<n>>, FALSE)])
DoEnv == hist = <<>> /\ \E h \in {"/home/x", "/"}, t \in {"", "/var/x"} : Do([op |-> "env", home |-> h, tmp |-> t])
Next == \/ DoProbe \/ DoMk \/ DoSave \/ DoFull \/ DoLoad \/ DoCopy \/ DoRemove \/ DoUnique \/ DoRace \/ DoFf \/ DoFind \/ DoDirs \/ DoList \/ DoCd
        \/ DoAbs \/ DoMtime \/ DoSock \/ DoEnv
Spec == Init /\ [][Next]_vars
Inv == InvTree(st) /\ At(st, st.cwd) = "dir"
Kind(q) == IF IsFile(At(st, q)) THEN ":" ELSE At(st, q)
Shape == <<[q \in DOMAIN st.t |-> Kind(q)], st.cwd, st.ff>>
EmitEdge == EmitB([i \in 1..(Len(hist') - 1) |-> hist'[i]], hist'[Len(hist')])
EmitRun == Len(hist) = MaxLen => EmitB(SubSeq(hist, 1, MaxLen - 1), hist[MaxLen])
=============================================================================
