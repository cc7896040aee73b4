-------------------------------- MODULE Args --------------------------------
(* Command lines: a sequence of words after the program name.  A word that starts with a dash is an  *)
(* option, its name follows the dashes; a word after an option that is not an option is its value;   *)
(* the words before the first option are positional.                                                *)
EXTENDS StrTools
Dashes(w) == LET p == FirstNot(w, {DASH}) IN IF p = 0 THEN Len(w) ELSE p - 1
IsOpt(w) == Dashes(w) > 0
Name(w) == SubSeq(w, Dashes(w) + 1, Len(w))
FindOpt(a, f) == LET I == {i \in DOMAIN a : IsOpt(a[i]) /\ Name(a[i]) = f} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
HasValue(a, f) == LET i == FindOpt(a, f) IN i > 0 /\ i < Len(a) /\ ~IsOpt(a[i + 1])
ValueOf(a, f) == a[FindOpt(a, f) + 1]
Pos(a, n) == n < Len(a) /\ \A i \in 1..(n + 1) : ~IsOpt(a[i])     \* 0-based n
(* property tree: one entry per option in order, its value the next word; other words set the unnamed entry *)
Kid(k, v) == [k |-> k, v |-> v]
First(c, k) == LET I == {i \in DOMAIN c : c[i].k = k} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
RECURSIVE Tree(_, _, _)
Tree(a, c, open) ==
  IF a = <<>> THEN c
  ELSE IF Begins(a[1], <<DASH>>) THEN Tree(Tail(a), Append(c, Kid(Tail(a[1]), <<>>)), Len(c) + 1)
  ELSE IF open > 0 THEN Tree(Tail(a), [c EXCEPT ![open].v = a[1]], 0)
  ELSE LET i == First(c, <<>>) IN Tree(Tail(a), IF i = 0 THEN Append(c, Kid(<<>>, a[1])) ELSE [c EXCEPT ![i].v = a[1]], 0)
ARet(o) ==
  CASE o.op = "opt" -> LET v == HasValue(o.a, o.f) IN
          OkV([i |-> FindOpt(o.a, o.f) - 1, has |-> FindOpt(o.a, o.f) > 0, s |-> IF v THEN ValueOf(o.a, o.f) ELSE <<100>>,
               n |-> IF ~v THEN 77 ELSE LET d == ParseInt(ValueOf(o.a, o.f), 1) IN IF d.ok THEN d.v ELSE -999])
    [] o.op = "pos" -> OkV([s |-> IF Pos(o.a, o.n) THEN o.a[o.n + 1] ELSE <<100>>, size |-> Len(o.a),
                            n |-> IF ~Pos(o.a, o.n) THEN 77 ELSE LET d == ParseInt(o.a[o.n + 1], 1) IN IF d.ok THEN d.v ELSE -999])
    [] o.op = "words" -> OkV(o.a)
    [] o.op = "tree" -> OkV([v |-> <<112>>, c |-> Tree(o.a, <<>>, 0)])

CONSTANTS Words, Names, MaxArgs
VARIABLES a
Init == a = <<>>
Next == Len(a) < MaxArgs /\ \E w \in Words : a' = Append(a, w)
Spec == Init /\ [][Next]_a
(* every option of the command line is an entry of the tree, in order, and every value is found *)
InvTree == LET t == Tree(a, <<>>, 0) O == SelectSeq(a, LAMBDA w : Begins(w, <<DASH>>)) IN
   /\ O = <<>> \/ \A i \in DOMAIN O : Tail(O[i]) = <<>> \/ \E j \in DOMAIN t : t[j].k = Tail(O[i])
   /\ Len(t) \in {Len(O), Len(O) + 1}
   /\ \A i \in DOMAIN a : (i < Len(a) /\ Begins(a[i], <<DASH>>) /\ Len(a[i]) > 1 /\ ~IsOpt(a[i + 1])) =>
        \E j \in DOMAIN t : t[j] = Kid(Tail(a[i]), a[i + 1])
C(o) == o @@ [ret |-> ARet(o)]
Each(S, f(_)) == LET l == SetToSeq(S) IN [i \in DOMAIN l |-> f(l[i])]
Emit == EmitSeq(<<C([op |-> "words", a |-> a]), C([op |-> "tree", a |-> a])>> \o Each(Names, LAMBDA f : C([op |-> "opt", a |-> a, f |-> f]))
                \o Each(0..MaxArgs, LAMBDA n : C([op |-> "pos", a |-> a, n |-> n])))
=============================================================================
