------------------------------- MODULE StrEnum ------------------------------
(* Every string up to a length (and every second argument) with the calls of one family.           *)
EXTENDS StrTools
CONSTANTS Alpha, StrLen, Args, Ys, Chars, Ints, Family
VARIABLES s, g
vars == <<s, g>>
Init == s = <<>> /\ g = 0
Grow == Len(s) < StrLen /\ \E c \in Alpha : s' = Append(s, c) /\ g' = g
Next == Grow
Spec == Init /\ [][Next]_vars
C(o) == o @@ [ret |-> Ret(o)]
Seq1(S, f(_)) == LET l == SetToSeq(S) IN [i \in DOMAIN l |-> f(l[i])]
Pairs(S, T) == SetToSeq(S \X T)
(* laws *)
InvLaws ==
  /\ TryUnquoted(Quoted(s)) = s
  /\ \A n \in Ints : n > 0 => Left(s, n) \o Right(s, -n) = s /\ Left(s, -n) \o Right(s, n) = s
  /\ \A x \in Args : x # <<>> =>
       /\ Cat(Split(s, Rng(x))) = SelectSeq(s, LAMBDA c : c \notin Rng(x))
       /\ \A i \in DOMAIN Split(s, Rng(x)) : Split(s, Rng(x))[i] # <<>>
       /\ LET a == At(s, FindAny(s, 1, Rng(x))) IN FindAny(s, 1, Rng(x)) > 0 => Len(a[1]) + Len(a[2]) + 1 = Len(s)
       /\ LET t == Trim(s, Rng(x)) IN t = <<>> \/ (t[1] \notin Rng(x) /\ t[Len(t)] \notin Rng(x))
       /\ Trim(Trim(s, Rng(x)), Rng(x)) = Trim(s, Rng(x))
       /\ Len(x) = 1 => Find(Repl(s, x, <<>>), x, 1) = 0
       /\ (\A c \in {STAR, QM, LB} : ~Has(x, c)) => (Find(s, x, 1) > 0 <=> Matches(s, <<STAR>> \o x \o <<STAR>>))
Calls ==
  CASE Family = "cut" -> Seq1(Ints, LAMBDA n : C([op |-> "left", s |-> s, n |-> n])) \o Seq1(Ints, LAMBDA n : C([op |-> "right", s |-> s, n |-> n]))
         \o Seq1({n \in Ints : n >= 0} \X Ints, LAMBDA a : C([op |-> "mid", s |-> s, n |-> a[1], m |-> a[2]]))
         \o Seq1({n \in Ints : n >= 0}, LAMBDA n : C([op |-> "copy", s |-> s, n |-> n]))
         \o Seq1(Chars, LAMBDA c : C([op |-> "char", s |-> s, c |-> c])) \o <<C([op |-> "case", s |-> s]), C([op |-> "trim_ws", s |-> s]), C([op |-> "is_pattern", s |-> s])>>
    [] Family = "find" ->
         Seq1(Args, LAMBDA x : C([op |-> "begins", s |-> s, x |-> x])) \o Seq1(Args, LAMBDA x : C([op |-> "ends", s |-> s, x |-> x]))
         \o Seq1(Args, LAMBDA x : C([op |-> "contains", s |-> s, x |-> x]))
         \o Seq1(Args \X {n \in Ints : n >= 0}, LAMBDA a : C([op |-> "in", s |-> s, x |-> a[1], n |-> a[2]]))
         \o Seq1((Args \ {<<>>}) \X {n \in Ints : n >= 0}, LAMBDA a : C([op |-> "nth", s |-> s, x |-> a[1], n |-> a[2]]))
         \o Seq1((Args \ {<<>>}) \X {n \in Ints : n >= 0}, LAMBDA a : C([op |-> "begins_at", s |-> s, x |-> a[1], n |-> a[2]]))
    [] Family = "split" ->
         Seq1(Args, LAMBDA x : C([op |-> "split", s |-> s, x |-> x])) \o Seq1(Args, LAMBDA x : C([op |-> "trim", s |-> s, x |-> x]))
         \o Seq1(Args, LAMBDA x : C([op |-> "split_first", s |-> s, x |-> x])) \o Seq1(Args, LAMBDA x : C([op |-> "split_last", s |-> s, x |-> x]))
         \o Seq1(Args, LAMBDA x : C([op |-> "keyval", s |-> s, x |-> x]))
    [] Family = "replace" ->
         Seq1((Args \ {<<>>}) \X Ys, LAMBDA a : C([op |-> "replace", s |-> s, x |-> a[1], y |-> a[2]]))
         \o Seq1(Chars \X Chars, LAMBDA a : C([op |-> "replace_char", s |-> s, c |-> a[1], d |-> a[2]]))
         \o Seq1(Args \X Ys, LAMBDA a : C([op |-> "append", s |-> s, x |-> a[1], y |-> a[2]]))
         \o Seq1(Args, LAMBDA x : C([op |-> "concat2", s |-> s, x |-> x, c |-> 46]))
         \o Seq1(Args \X Ys, LAMBDA a : C([op |-> "concat", l |-> <<s, a[1], s, a[2]>>, x |-> a[2]]))
         \o <<C([op |-> "any_of", s |-> s])>>
    [] Family = "match" -> Seq1(Args, LAMBDA x : C([op |-> "match", s |-> x, x |-> s]))
    [] Family = "matcher" -> Seq1(Args, LAMBDA x : C([op |-> "matcher", s |-> x, x |-> s]))
    [] Family = "num" -> <<C([op |-> "num", s |-> s]), C([op |-> "bool", s |-> s])>>
    [] Family = "quote" -> <<C([op |-> "quoted", s |-> s])>> \o Seq1(Args, LAMBDA x : C([op |-> "try_quoted", s |-> s, x |-> x]))
         \o <<C([op |-> "unquoted", s |-> s]), C([op |-> "decode", s |-> s])>> \o (IF Len(s) = 1 THEN <<C([op |-> "encode", c |-> s[1]])>> ELSE <<>>)
    [] Family = "latin" -> <<C([op |-> "latin", s |-> s])>>
Emit == EmitSeq(Calls)
=============================================================================
