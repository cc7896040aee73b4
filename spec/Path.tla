-------------------------------- MODULE Path --------------------------------
(* Paths as texts: the operations, and the algebra they obey on the component level.               *)
EXTENDS StrTools

SLASH == 47  COLON == 58  DOT == 46
Seps == {SLASH, BSL}
LastSep(s) == LastIn(s, Seps)
ExtPos(s) == LET d == LastIn(s, {DOT}) IN IF d > LastSep(s) THEN d ELSE 0
Parent(s) == LET n == LastSep(s) IN IF n = 0 THEN <<>> ELSE SubSeq(s, 1, Max2(n - 1, 1))
FileName(s) == SubSeq(s, LastSep(s) + 1, Len(s))
Ext(s) == IF ExtPos(s) = 0 THEN <<>> ELSE SubSeq(s, ExtPos(s), Len(s))
ExtNoDot(s) == IF ExtPos(s) = 0 THEN <<>> ELSE SubSeq(s, ExtPos(s) + 1, Len(s))
Stem(s) == SubSeq(s, LastSep(s) + 1, IF ExtPos(s) = 0 THEN Len(s) ELSE ExtPos(s) - 1)
HasFileName(s) == s # <<>> /\ LastSep(s) # Len(s) /\ ~Ends(s, <<COLON>>)
HasParent(s) == LastSep(s) > 0
IsAbs(s) == (s # <<>> /\ s[1] \in {SLASH, 126}) \/ Has(s, COLON)
Join(s, p) == IF HasFileName(s) THEN s \o <<SLASH>> \o TrimL(p, Seps) ELSE s \o p
ReplExt(s, e) == (IF ExtPos(s) = 0 THEN s ELSE SubSeq(s, 1, ExtPos(s) - 1)) \o (IF e = <<>> THEN <<>> ELSE IF e[1] = DOT THEN e ELSE <<DOT>> \o e)
ReplFile(s, f) == Join(Parent(s), f)
ReplStem(s, t) == Join(Parent(s), t \o Ext(s))
Pref(s) == [i \in DOMAIN s |-> IF s[i] \in Seps THEN SLASH ELSE s[i]]

(* components *)
Comps(s) == Split(s, Seps)
Rooted(s) == s # <<>> /\ s[1] \in Seps
Same(a, b) == Comps(a) = Comps(b) /\ Rooted(a) = Rooted(b)
Plain(s) == ~Has(s, COLON)

RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))

PRet(o) ==
  CASE o.op = "parts" -> OkV([parent |-> Parent(o.s), file |-> FileName(o.s), ext |-> Ext(o.s), extnd |-> ExtNoDot(o.s), stem |-> Stem(o.s),
                              hasf |-> HasFileName(o.s), hasp |-> HasParent(o.s), abs |-> IsAbs(o.s), empty |-> o.s = <<>>, pref |-> Pref(o.s), rm |-> Parent(o.s),
                              noext |-> ReplExt(o.s, <<>>)])
    [] o.op = "join" -> OkV([j |-> Join(o.s, o.x), a |-> o.s \o o.x])
    [] o.op = "rext" -> OkV(ReplExt(o.s, o.x))
    [] o.op = "rfile" -> OkV(ReplFile(o.s, o.x))
    [] o.op = "rstem" -> OkV(ReplStem(o.s, o.x))
    [] o.op = "cstem" -> OkV(ReplStem(o.s, Stem(o.s) \o o.x))
    [] o.op = "cmp" -> OkV([eq |-> o.s = o.x, lt |-> Less(o.s, o.x)])

----------------------------------------------------------------------------
CONSTANTS Alpha, PathLen, Args
VARIABLES s
Init == s = <<>>
Next == Len(s) < PathLen /\ \E c \in Alpha : s' = Append(s, c)
Spec == Init /\ [][Next]_s
NoSep(x) == \A i \in DOMAIN x : x[i] \notin Seps
InvAlgebra ==
  Plain(s) =>
    /\ Same(Join(Parent(s), FileName(s)), s)
    /\ Stem(s) \o Ext(s) = FileName(s)
    /\ Ext(s) = (IF ExtPos(s) = 0 THEN <<>> ELSE <<DOT>> \o ExtNoDot(s))
    /\ NoSep(Ext(s)) /\ NoSep(FileName(s))
    /\ \A x \in Args : Plain(x) =>
         /\ Comps(Join(s, x)) = Comps(s) \o Comps(x)
         /\ Rooted(Join(s, x)) = (Rooted(s) \/ (s = <<>> /\ Rooted(x)))
         /\ (NoSep(x) /\ ~Has(x, DOT) /\ x # <<>>) =>
              /\ Parent(ReplExt(s, x)) = Parent(s) /\ Stem(ReplExt(s, x)) = Stem(s) /\ ExtNoDot(ReplExt(s, x)) = x
              /\ FileName(ReplFile(s, x)) = x /\ Same(Parent(ReplFile(s, x)), Parent(s))
              /\ FileName(ReplStem(s, x)) = x \o Ext(s)
         /\ ReplExt(ReplExt(s, x), Ext(s)) = s \/ Has(x, DOT) \/ ~NoSep(x) \/ (x = <<>> /\ Has(Stem(s), DOT)) \/ (Ext(s) = <<>> /\ x = <<>>) \/ Ext(s) = <<>>
C(o) == o @@ [ret |-> PRet(o)]
Each(f(_)) == LET l == SetToSeq(Args) IN [i \in DOMAIN l |-> f(l[i])]
Emit == EmitSeq(<<C([op |-> "parts", s |-> s])>> \o Each(LAMBDA x : C([op |-> "join", s |-> s, x |-> x]))
  \o Each(LAMBDA x : C([op |-> "rext", s |-> s, x |-> x])) \o Each(LAMBDA x : C([op |-> "rfile", s |-> s, x |-> x]))
  \o Each(LAMBDA x : C([op |-> "rstem", s |-> s, x |-> x])) \o Each(LAMBDA x : C([op |-> "cstem", s |-> s, x |-> x])) \o Each(LAMBDA x : C([op |-> "cmp", s |-> s, x |-> x])))
=============================================================================
