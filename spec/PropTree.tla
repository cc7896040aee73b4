------------------------------ MODULE PropTree ------------------------------
(* prop_node: an ordered labelled tree with access tracking.                                       *)
(* node = [v |-> value, a |-> accessed flag, c |-> sequence of [k |-> key, n |-> node]].           *)
(* A call o is made on the node at path o.t (sequence of child positions); nodes that are returned *)
(* are reported as paths relative to it.                                                           *)
EXTENDS Conf

Leaf(v) == [v |-> v, a |-> FALSE, c |-> <<>>]
Kid(k, n) == [k |-> k, n |-> n]

RECURSIVE Valid(_, _), At(_, _), Put(_, _, _), CountKids(_), Layers(_), Unacc(_), SameTree(_, _), SetAcc(_, _), Merge(_, _, _),
          FindRec(_, _), Query(_, _), GetOrAddQ(_, _), EraseQ(_, _), Mark(_, _), UnaccLines(_, _), FindQ(_, _, _),
          Lit(_), Proj(_), SeqPaths(_, _), Nodes(_), Spaces(_)

Valid(n, t) == t = <<>> \/ (Head(t) \in DOMAIN n.c /\ Valid(n.c[Head(t)].n, Tail(t)))
At(n, t) == IF t = <<>> THEN n ELSE At(n.c[Head(t)].n, Tail(t))
Put(n, t, m) == IF t = <<>> THEN m ELSE [n EXCEPT !.c[Head(t)].n = Put(n.c[Head(t)].n, Tail(t), m)]
Mark(n, t) == Put(n, t, [At(n, t) EXCEPT !.a = TRUE])

(* trees given as arguments: [v |-> value, c |-> <<[k, n]>>] without flags *)
Lit(x) == [v |-> x.v, a |-> FALSE, c |-> [i \in DOMAIN x.c |-> Kid(x.c[i].k, Lit(x.c[i].n))]]
(* what a user can see: value, is_accessed, children *)
Proj(n) == [v |-> n.v, a |-> (n.a \/ n.v = ""), c |-> [i \in DOMAIN n.c |-> [k |-> n.c[i].k, n |-> Proj(n.c[i].n)]]]

Nodes(n) == 1 + (LET f[i \in 0..Len(n.c)] == IF i = 0 THEN 0 ELSE f[i - 1] + Nodes(n.c[i].n) IN f[Len(n.c)])
CountKids(n) == Nodes(n) - 1
Layers(n) == LET f[i \in 0..Len(n.c)] == IF i = 0 THEN 0 ELSE Max2(f[i - 1], Layers(n.c[i].n) + 1) IN f[Len(n.c)]
Unacc(n) == (IF n.a \/ n.v = "" THEN 0 ELSE 1)
            + (LET f[i \in 0..Len(n.c)] == IF i = 0 THEN 0 ELSE f[i - 1] + Unacc(n.c[i].n) IN f[Len(n.c)])
SameTree(x, y) == /\ x.v = y.v /\ Len(x.c) = Len(y.c)
                  /\ \A i \in DOMAIN x.c : x.c[i].k = y.c[i].k /\ SameTree(x.c[i].n, y.c[i].n)
SetAcc(n, b) == [v |-> n.v, a |-> b, c |-> [i \in DOMAIN n.c |-> Kid(n.c[i].k, SetAcc(n.c[i].n, b))]]

(* first child with a key; 0 if there is none *)
First(n, k) == IF \E i \in DOMAIN n.c : n.c[i].k = k
               THEN CHOOSE i \in DOMAIN n.c : n.c[i].k = k /\ \A j \in 1..(i - 1) : n.c[j].k # k ELSE 0
HashIdx == ("#1" :> 1) @@ ("#2" :> 2) @@ ("#3" :> 3) @@ ("#4" :> 4) @@ ("#2x" :> 2)      \* "#0", "#", "#x", "#-1": none
Sel(n, k) == LET i == First(n, k) IN     \* a path component: a literal key, otherwise '#n'
   IF i > 0 THEN i ELSE IF k \in DOMAIN HashIdx /\ HashIdx[k] \in DOMAIN n.c THEN HashIdx[k] ELSE 0

NoPath == <<0>>
Under(i, p) == IF p = NoPath THEN NoPath ELSE <<i>> \o p
Query(n, q) == LET i == Sel(n, Head(q)) IN
   IF i = 0 THEN NoPath ELSE IF Len(q) = 1 THEN <<i>> ELSE Under(i, Query(n.c[i].n, Tail(q)))
(* result: <<node, path>> *)
GetOrAddQ(n, q) ==
  LET i == Sel(n, Head(q))
      m == IF i = 0 THEN [n EXCEPT !.c = Append(n.c, Kid(Head(q), Leaf("")))] ELSE n
      j == IF i = 0 THEN Len(m.c) ELSE i
  IN IF Len(q) = 1 THEN <<m, <<j>>>>
     ELSE LET r == GetOrAddQ(m.c[j].n, Tail(q)) IN <<[m EXCEPT !.c[j].n = r[1]], <<j>> \o r[2]>>
DelKid(n, i) == [n EXCEPT !.c = SubSeq(n.c, 1, i - 1) \o SubSeq(n.c, i + 1, Len(n.c))]
(* erasing by key looks through the children: the node counts as read *)
EraseKey(n, k) == LET i == First(n, k)  m == [n EXCEPT !.a = TRUE] IN IF i = 0 THEN <<m, FALSE>> ELSE <<DelKid(m, i), TRUE>>
EraseQ(n, q) == IF Len(q) = 1 THEN EraseKey(n, q[1])
   ELSE LET i == Sel(n, Head(q)) IN IF i = 0 THEN <<n, FALSE>>
        ELSE LET r == EraseQ(n.c[i].n, Tail(q)) IN <<[n EXCEPT !.c[i].n = r[1]], r[2]>>
FindRec(n, k) ==      \* depth first, a child before its own children
  LET f[i \in 1..(Len(n.c) + 1)] ==
        IF i > Len(n.c) THEN NoPath
        ELSE IF n.c[i].k = k THEN <<i>>
        ELSE LET r == FindRec(n.c[i].n, k) IN IF r # NoPath THEN <<i>> \o r ELSE f[i + 1]
  IN f[1]
Merge(n, o, ow) ==
  LET m0 == IF ow THEN [n EXCEPT !.v = o.v] ELSE n
      f[i \in 0..Len(o.c)] == IF i = 0 THEN m0 ELSE
         LET m == f[i - 1]  j == First(m, o.c[i].k) IN
         IF j = 0 THEN [m EXCEPT !.c = Append(m.c, o.c[i])] ELSE [m EXCEPT !.c[j].n = Merge(m.c[j].n, o.c[i].n, ow)]
  IN f[Len(o.c)]

(* paths of all nodes below n, in document order *)
SeqPaths(n, i) == IF i > Len(n.c) THEN <<>> ELSE
   <<<<i>>>> \o [j \in DOMAIN SeqPaths(n.c[i].n, 1) |-> <<i>> \o SeqPaths(n.c[i].n, 1)[j]] \o SeqPaths(n, i + 1)
AllPaths(n) == <<<<>>>> \o SeqPaths(n, 1)

Spaces(d) == IF d = 0 THEN "" ELSE "  " \o Spaces(d - 1)
UnaccLines(n, d) ==
  LET f[i \in 0..Len(n.c)] == IF i = 0 THEN <<>> ELSE
        LET x == n.c[i].n IN
        f[i - 1] \o (IF Unacc(x) > 0
                     THEN <<Spaces(d) \o n.c[i].k \o (IF x.a \/ x.v = "" THEN "" ELSE " = " \o x.v \o " *")>> ELSE <<>>)
                 \o UnaccLines(x, d + 1)
  IN f[Len(n.c)]

(* query to a node by identity: depth first; every node searched is iterated, hence read *)
FindQ(n, here, to) ==     \* [found, q, n (with marks)]
  IF here = to THEN [found |-> TRUE, q |-> "", n |-> n]
  ELSE LET m == [n EXCEPT !.a = TRUE]
           f[i \in 1..(Len(n.c) + 1)] == IF i > Len(n.c) THEN [found |-> FALSE, q |-> "", c |-> <<>>] ELSE
              LET r == FindQ(n.c[i].n, here \o <<i>>, to) IN
              IF r.found THEN [found |-> TRUE, q |-> IF r.q = "" THEN n.c[i].k ELSE n.c[i].k \o "." \o r.q,
                               c |-> <<Kid(n.c[i].k, r.n)>> \o SubSeq(n.c, i + 1, Len(n.c))]
              ELSE LET z == f[i + 1] IN [found |-> z.found, q |-> z.q, c |-> <<Kid(n.c[i].k, r.n)>> \o z.c]
           g == f[1]
       IN [found |-> g.found, q |-> g.q, n |-> [m EXCEPT !.c = g.c]]
(* query to a node by walking up: the key of every ancestor is read *)
RECURSIVE UpQ(_, _), MarkUp(_, _)
UpQ(n, p) == IF Len(p) = 0 THEN "" ELSE
   LET k == At(n, SubSeq(p, 1, Len(p) - 1)).c[p[Len(p)]].k IN k
UpQAll(n, p) ==    \* keys from the root down; an empty prefix so far is not followed by a dot
  LET f[j \in 0..Len(p)] == IF j = 0 THEN "" ELSE
        LET k == UpQ(n, SubSeq(p, 1, Len(p) + 1 - j)) IN IF f[j - 1] = "" THEN k ELSE k \o "." \o f[j - 1]
  IN f[Len(p)]
MarkUp(n, p) == IF Len(p) = 0 THEN n ELSE MarkUp(Mark(n, SubSeq(p, 1, Len(p) - 1)), SubSeq(p, 1, Len(p) - 1))

IntOf == ("1" :> 1) @@ ("2" :> 2) @@ ("33" :> 33) @@ ("4y" :> 4) @@ ("-5" :> -5)
IsInt(v) == v \in DOMAIN IntOf
PatMatch == ("*" :> {"", "a", "b", "ab", "c", "#1", "#2", "#x"}) @@ ("a*" :> {"a", "ab"}) @@ ("*b" :> {"b", "ab"}) @@ ("?" :> {"a", "b", "c"})
            @@ ("b" :> {"b"})

KeysOf(n) == [i \in DOMAIN n.c |-> n.c[i].k]
ChildIdx(n, S) == SelectSeq([i \in DOMAIN n.c |-> i], LAMBDA i : n.c[i].k \in S)
FirstOf(n, ks) == LET f[j \in 1..(Len(ks) + 1)] == IF j > Len(ks) THEN 0 ELSE IF First(n, ks[j]) > 0 THEN First(n, ks[j]) ELSE f[j + 1] IN f[1]
(* reading child i as an int *)
ReadInt(n, i) == LET m == Mark(n, <<i>>) IN IF IsInt(n.c[i].n.v) THEN R(m, OkV(IntOf[n.c[i].n.v])) ELSE R(m, Fail)
(* reading several children one after the other; stops at the first that does not convert *)
RECURSIVE ReadInts(_, _, _)
ReadInts(n, is, acc) == IF is = <<>> THEN R(n, OkV(acc)) ELSE
   LET r == ReadInt(n, Head(is)) IN IF r.ret.ok THEN ReadInts(r.st, Tail(is), Append(acc, r.ret.v)) ELSE R(r.st, Fail)

P(i) == IF i = 0 THEN NoPath ELSE <<i>>

ApplyN(n, o) ==
  CASE o.op \in {"set_key", "assign_key"} -> LET i == First(n, o.k)
                           m == IF i = 0 THEN [n EXCEPT !.c = Append(n.c, Kid(o.k, Leaf(o.v)))] ELSE [n EXCEPT !.c[i].n = Leaf(o.v)]
                       IN R(m, Ok)
    [] o.op = "set" -> R(Leaf(o.v), Ok)
    [] o.op = "set_value" -> R([n EXCEPT !.v = o.v], Ok)
    [] o.op \in {"set_tree", "set_tree_rv"} -> R(Lit(o.x), Ok)
    [] o.op = "set_ints" -> R([v |-> "", a |-> FALSE, c |-> [i \in DOMAIN o.xs |-> Kid("", Leaf(o.xs[i]))]], Ok)
    [] o.op = "add_child" -> R([n EXCEPT !.c = Append(n.c, Kid(o.k, Leaf("")))], Ok)
    [] o.op \in {"add_tree", "add_tree_rv"} -> R([n EXCEPT !.c = Append(n.c, Kid(o.k, Lit(o.x)))], Ok)
    [] o.op = "add_kv" -> R([n EXCEPT !.c = Append(n.c, Kid(o.k, Leaf(o.v)))], Ok)
    [] o.op = "add_value" -> R([n EXCEPT !.c = Append(n.c, Kid("", Leaf(o.v)))], Ok)
    [] o.op = "add_children" -> R([n EXCEPT !.c = n.c \o [i \in 1..o.n |-> Kid(o.k, Leaf(o.v))]], Ok)
    [] o.op \in {"append", "append_rv"} -> R([n EXCEPT !.c = n.c \o Lit(o.x).c], OkV(Len(n.c)))
    [] o.op = "insert" -> LET p == Min2(o.i, Len(n.c)) IN
          R([n EXCEPT !.a = TRUE, !.c = SubSeq(n.c, 1, p) \o Lit(o.x).c \o SubSeq(n.c, p + 1, Len(n.c))], OkV(p))
    [] o.op = "merge" -> R(Merge(n, Lit(o.x), o.ow), Ok)
    [] o.op = "erase_key" -> LET r == EraseKey(n, o.k) IN R(r[1], OkV(r[2]))
    [] o.op = "erase_at" -> IF o.i \in DOMAIN n.c THEN R(DelKid([n EXCEPT !.a = TRUE], o.i), OkV(o.i)) ELSE R(n, Fail)
    [] o.op = "erase_query" -> LET r == EraseQ(n, o.q) IN R(r[1], OkV(r[2]))
    [] o.op = "pop_back" -> IF n.c = <<>> THEN R(n, Fail) ELSE R(DelKid(n, Len(n.c)), Ok)
    [] o.op = "clear" -> R([n EXCEPT !.v = "", !.c = <<>>], Ok)
    [] o.op = "get_or_add_child" -> LET i == First(n, o.k) IN
          IF i > 0 THEN R(n, OkV(<<i>>)) ELSE R([n EXCEPT !.c = Append(n.c, Kid(o.k, Leaf("")))], OkV(<<Len(n.c) + 1>>))
    [] o.op = "get_or_add_query" -> LET r == GetOrAddQ(n, o.q) IN R(r[1], OkV(r[2]))
    [] o.op = "set_query" -> LET r == GetOrAddQ(n, o.q) IN R(Put(r[1], r[2], Leaf(o.v)), OkV(r[2]))
    \* lookups
    [] o.op \in {"try_get_child", "ctry_get_child"} -> R(n, OkV(P(First(n, o.k))))
    [] o.op \in {"get_child", "cget_child"} -> IF First(n, o.k) = 0 THEN R(n, Fail) ELSE R(n, OkV(P(First(n, o.k))))
    [] o.op \in {"get_child_at", "cget_child_at"} -> IF o.i \in DOMAIN n.c THEN R(n, OkV(<<o.i>>)) ELSE R(n, Fail)
    [] o.op = "try_get_any_child" -> R(n, OkV(P(FirstOf(n, o.ks))))
    [] o.op = "get_any_child" -> IF FirstOf(n, o.ks) = 0 THEN R(n, Fail) ELSE R(n, OkV(P(FirstOf(n, o.ks))))
    [] o.op \in {"try_get_query", "ctry_get_query"} -> R(n, OkV(Query(n, o.q)))
    [] o.op = "find_rec" -> R(n, OkV(FindRec(n, o.k)))
    [] o.op \in {"find_parent", "cfind_parent"} -> IF Valid(n, o.p) /\ o.p # <<>> THEN R(n, OkV([p |-> SubSeq(o.p, 1, Len(o.p) - 1), i |-> o.p[Len(o.p)] - 1]))
                              ELSE R(n, OkV([p |-> NoPath, i |-> -1]))
    [] o.op = "info" -> R(n, OkV([size |-> Len(n.c), layers |-> Layers(n), kids |-> CountKids(n), empty |-> (n.v = "" /\ n.c = <<>>),
                                  has_value |-> n.v # "", peek |-> n.v, unacc |-> Unacc(n), acc |-> (n.a \/ n.v = "")]))
    [] o.op = "key_info" -> LET i == First(n, o.k) IN
          R(n, OkV([has |-> i > 0, has_value |-> (i > 0 /\ n.c[Max2(i, 1)].n.v # ""), count |-> Cardinality({j \in DOMAIN n.c : n.c[j].k = o.k})]))
    [] o.op = "has_any_key" -> R(n, OkV(\E j \in DOMAIN o.ks : First(n, o.ks[j]) > 0))
    [] o.op = "eq" -> R(n, OkV([eq |-> SameTree(n, Lit(o.x)), ne |-> ~SameTree(n, Lit(o.x)), self |-> TRUE]))
    \* reads
    [] o.op = "is_array" -> R([n EXCEPT !.a = TRUE], OkV(\A i \in DOMAIN n.c : n.c[i].k = ""))
    [] o.op = "get_key" -> IF o.i \in DOMAIN n.c THEN R([n EXCEPT !.a = TRUE], OkV(n.c[o.i].k)) ELSE R(n, Fail)
    [] o.op = "get_str" -> R([n EXCEPT !.a = TRUE], OkV(n.v))
    [] o.op = "get_str_key" -> LET i == First(n, o.k) IN IF i = 0 THEN R(n, Fail) ELSE R(Mark(n, <<i>>), OkV(n.c[i].n.v))
    [] o.op = "get_int" -> R([n EXCEPT !.a = TRUE], IF IsInt(n.v) THEN OkV(IntOf[n.v]) ELSE Fail)
    [] o.op = "try_get_int" -> R([n EXCEPT !.a = TRUE], OkV(IF IsInt(n.v) THEN IntOf[n.v] ELSE -999999))
    [] o.op = "get_int_key" -> LET i == First(n, o.k) IN IF i = 0 THEN R(n, Fail) ELSE ReadInt(n, i)
    [] o.op = "get_int_at" -> IF o.i \in DOMAIN n.c THEN ReadInt(n, o.i) ELSE R(n, Fail)
    [] o.op = "get_int_def" -> LET i == First(n, o.k) IN IF i = 0 THEN R(n, OkV(o.d)) ELSE ReadInt(n, i)
    [] o.op = "try_get_int_key" -> LET i == First(n, o.k) IN IF i = 0 THEN R(n, OkV(-999999))
          ELSE R(Mark(n, <<i>>), OkV(IF IsInt(n.c[i].n.v) THEN IntOf[n.c[i].n.v] ELSE -999999))
    [] o.op = "try_get_into" -> LET i == First(n, o.k) IN IF i = 0 THEN R(n, OkV(-999999)) ELSE ReadInt(n, i)
    [] o.op = "get_any" -> LET i == FirstOf(n, o.ks) IN IF i = 0 THEN R(n, Fail) ELSE ReadInt(n, i)
    [] o.op = "get_any_def" -> LET i == FirstOf(n, o.ks) IN IF i = 0 THEN R(n, OkV(o.d)) ELSE ReadInt(n, i)
    [] o.op = "try_get_any" -> LET i == FirstOf(n, o.ks) IN IF i = 0 THEN R(n, OkV(-999999)) ELSE ReadInt(n, i)
    [] o.op = "get_all" -> ReadInts(n, ChildIdx(n, {o.k}), <<>>)
    [] o.op = "get_ints" -> LET r == ReadInts(n, [i \in DOMAIN n.c |-> i], <<>>) IN
          IF r.ret.ok THEN R([r.st EXCEPT !.a = TRUE], r.ret) ELSE R([r.st EXCEPT !.a = TRUE], Fail)
    [] o.op \in {"iterate", "citerate"} -> R([n EXCEPT !.a = TRUE], OkV(KeysOf(n)))
    [] o.op \in {"riterate", "criterate"} -> R([n EXCEPT !.a = TRUE], OkV(Reverse(KeysOf(n))))
    [] o.op = "select" -> R([n EXCEPT !.a = TRUE], OkV(ChildIdx(n, {o.k})))
    [] o.op = "select_pattern" -> R([n EXCEPT !.a = TRUE], OkV(ChildIdx(n, PatMatch[o.pat])))
    [] o.op = "ends" -> IF n.c = <<>> THEN R(n, Fail) ELSE R(n, OkV(<<n.c[1].k, n.c[Len(n.c)].k>>))
    [] o.op = "access" -> R([n EXCEPT !.a = o.b], Ok)
    [] o.op = "set_accessed_rec" -> R(SetAcc(n, o.b), Ok)
    [] o.op \in {"unaccessed", "log_unaccessed"} -> R(n, OkV(UnaccLines(n, 0)))
    [] o.op = "find_query_to" -> LET r == FindQ(n, <<>>, o.p) IN R(r.n, OkV([found |-> r.found, q |-> r.q]))
    [] o.op = "make_query" -> IF Valid(n, o.p) THEN R(MarkUp(n, o.p), OkV(UpQAll(n, o.p))) ELSE R(n, Fail)
    [] o.op \in {"copy", "move"} -> R(n, Ok)

Apply(s, o) == IF ~Valid(s, o.t) THEN R(s, Fail)
               ELSE LET r == ApplyN(At(s, o.t), o) IN R(Put(s, o.t, r.st), r.ret)
InitSt == Leaf("")
Obs(s) == Proj(s)
=============================================================================
