------------------------------- MODULE Version ------------------------------
(* Version numbers: text form, order.  v = [a, b, c, d, p]: major, minor, patch, build, postfix.    *)
EXTENDS StrTools
Text(v) == NatCodes(v.a) \o <<46>> \o NatCodes(v.b) \o <<46>> \o NatCodes(v.c) \o (IF v.d > 0 THEN <<46>> \o NatCodes(v.d) ELSE <<>>)
           \o (IF v.p # <<>> THEN <<SP>> \o v.p ELSE <<>>)
Read(s) == LET h == At(s, FindAny(s, 1, Ws)) n == Split(h[1], {46}) IN
   IF Len(n) < 3 THEN Fail
   ELSE LET d == [i \in 1..3 |-> ParseInt(n[i], 1)] IN
     IF \E i \in 1..3 : ~d[i].ok THEN Fail
     ELSE OkV([a |-> d[1].v, b |-> d[2].v, c |-> d[3].v, d |-> IF Len(n) > 3 THEN ParseInt(n[4], 1).v ELSE 0, p |-> h[2]])
Sgn(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
(* a version without a build number matches every build *)
Cmp(v, w) == LET a == Sgn(v.a, w.a) b == Sgn(v.b, w.b) c == Sgn(v.c, w.c) IN
   IF a # 0 THEN a ELSE IF b # 0 THEN 2 * b ELSE IF c # 0 THEN 3 * c ELSE IF v.d > 0 /\ w.d > 0 THEN 4 * Sgn(v.d, w.d) ELSE 0
VRet(o) ==
  CASE o.op = "text" -> OkV([t |-> Text(o.v), r |-> o.v, empty |-> o.v.a = 0 /\ o.v.b = 0 /\ o.v.c = 0 /\ o.v.d = 0 /\ o.v.p = <<>>])
    [] o.op = "read" -> Read(o.s)
    [] o.op = "cmp" -> LET c == Cmp(o.v, o.w) IN OkV([c |-> c, lt |-> c < 0, gt |-> c > 0, le |-> c <= 0, ge |-> c >= 0, eq |-> c = 0, ne |-> c # 0])
    [] o.op = "atleast" -> LET c == Cmp(o.v, o.w) IN OkV([al |-> c >= 0, be |-> c < 0])

CONSTANTS Nums, Builds, Posts, Alpha, StrLen, Mode
VARIABLES v, w, s
vars == <<v, w, s>>
Vs(P) == [a : Nums, b : Nums, c : Nums, d : Builds, p : P]
Z == [a |-> 0, b |-> 0, c |-> 0, d |-> 0, p |-> <<>>]
Init == /\ s = <<>>
        /\ IF Mode = "text" THEN v \in Vs(Posts) /\ w = Z ELSE IF Mode = "cmp" THEN v \in Vs({<<>>}) /\ w = Z ELSE v = Z /\ w = Z
Next == \/ Mode = "cmp" /\ w = Z /\ w' \in Vs({<<>>}) /\ UNCHANGED <<v, s>>
        \/ Mode = "read" /\ Len(s) < StrLen /\ (\E c \in Alpha : s' = Append(s, c)) /\ UNCHANGED <<v, w>>
Spec == Init /\ [][Next]_vars
InvText == Read(Text(v)) = OkV(v)
InvOrder == /\ Sgn(Cmp(v, w), 0) = -Sgn(Cmp(w, v), 0)
            /\ Mode = "cmp" => \A x \in [a : {v.a}, b : {v.b, w.b}, c : {v.c, w.c}, d : Builds \ {0}, p : {<<>>}] :
                 (v.d > 0 /\ w.d > 0) => (Cmp(v, w) <= 0 /\ Cmp(w, x) <= 0 => Cmp(v, x) <= 0)
C(o) == o @@ [ret |-> VRet(o)]
Emit == CASE Mode = "text" -> EmitSeq(<<C([op |-> "text", v |-> v])>>)
          [] Mode = "cmp" -> EmitSeq(<<C([op |-> "cmp", v |-> v, w |-> w]), C([op |-> "atleast", v |-> v, w |-> w])>>)
          [] Mode = "read" -> EmitSeq(<<C([op |-> "read", s |-> s])>>)
=============================================================================
