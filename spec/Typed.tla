-------------------------------- MODULE Typed --------------------------------
(* Values of a type in a property tree: which node a value becomes (ToNode), which value a node is *)
(* read as, or that it is refused (From), and the helpers built on both.  A node is [v, c]: its    *)
(* text (character codes) and its children [k, n].  Numbers are decimal text of any length.        *)
EXTENDS Text

ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code == [x \in {SubSeq(ASCII, i, i) : i \in 1..95} |-> 31 + (CHOOSE i \in 1..95 : SubSeq(ASCII, i, i) = x)]
C(s) == [i \in 1..Len(s) |-> Code[SubSeq(s, i, i)]]
N(v, c) == [v |-> v, c |-> c]
T(v) == N(v, <<>>)
Kid(k, n) == [k |-> k, n |-> n]
Dg == 48..57
White == {32, 9, 10, 11, 12, 13}

----------------------------------------------------------------------------
(* numbers as text *)
RECURSIVE DigitsAt(_, _), NoLead(_), NoTail(_), Cmp(_, _, _)
DigitsAt(s, p) == IF p <= Len(s) /\ s[p] \in Dg THEN <<s[p]>> \o DigitsAt(s, p + 1) ELSE <<>>
NoLead(d) == IF d # <<>> /\ d[1] = 48 THEN NoLead(Tail(d)) ELSE d
NoTail(d) == IF d # <<>> /\ d[Len(d)] = 48 THEN NoTail(SubSeq(d, 1, Len(d) - 1)) ELSE d
Cmp(a, b, i) == IF i > Len(a) THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE Cmp(a, b, i + 1)
AtMost(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Cmp(a, b, 1) <= 0)
AfterWs(s) == LET f[p \in 1..(Len(s) + 1)] == IF p > Len(s) \/ s[p] \notin White THEN p ELSE f[p + 1] IN f[1]
Signed(s, p) == p <= Len(s) /\ s[p] \in {43, 45}
Neg(s, p) == p <= Len(s) /\ s[p] = 45
NoNum == [ok |-> FALSE, neg |-> FALSE, ds |-> <<>>, e |-> 0]

(* whole numbers: [ok, neg, ds] *)
IntIn(s) == LET p == AfterWs(s) d == DigitsAt(s, IF Signed(s, p) THEN p + 1 ELSE p) IN
   IF d = <<>> THEN NoNum ELSE [ok |-> TRUE, neg |-> Neg(s, p), ds |-> NoLead(d), e |-> 0]
IntText(n) == IF n.ds = <<>> THEN <<48>> ELSE IF n.neg THEN <<45>> \o n.ds ELSE n.ds
Highest(t) == CASE t = "int" -> C("2147483647") [] t = "uint" -> C("4294967295") [] t = "long" -> C("9223372036854775807") [] t = "ulong" -> C("18446744073709551615")
Lowest(t) == CASE t = "int" -> C("2147483648") [] t = "long" -> C("9223372036854775808") [] OTHER -> <<>>
Ints == {"int", "uint", "long", "ulong"}
IntOk(t, n) == n.ok /\ AtMost(n.ds, IF n.neg THEN Lowest(t) ELSE Highest(t))

(* decimal numbers: the value is 0.ds * 10^e, ds without zeros at either end *)
NatOf(d) == LET f[i \in 0..Len(d)] == IF i = 0 THEN 0 ELSE f[i - 1] * 10 + d[i] - 48 IN f[Len(d)]
DecIn(s) ==
  LET p == AfterWs(s)
      a == IF Signed(s, p) THEN p + 1 ELSE p
      i == DigitsAt(s, a)
      dot == a + Len(i)
      f == IF dot <= Len(s) /\ s[dot] = 46 THEN DigitsAt(s, dot + 1) ELSE <<>>
      q == IF dot <= Len(s) /\ s[dot] = 46 THEN dot + 1 + Len(f) ELSE dot      \* after the digits
      x == IF q <= Len(s) /\ s[q] \in {101, 69} THEN DigitsAt(s, IF Signed(s, q + 1) THEN q + 2 ELSE q + 1) ELSE <<>>
      ex == IF x = <<>> THEN 0 ELSE IF Neg(s, q + 1) THEN -NatOf(x) ELSE NatOf(x)
      all == i \o f
      lead == NoLead(all)
  IN IF all = <<>> THEN NoNum
     ELSE [ok |-> TRUE, neg |-> Neg(s, p), ds |-> NoTail(lead), e |-> IF lead = <<>> THEN 0 ELSE Len(i) - (Len(all) - Len(lead)) + ex]
(* %.pg: p digits, the shorter of the two notations *)
RECURSIVE Inc(_)
Inc(d) == IF d = <<>> THEN <<49>> ELSE IF d[Len(d)] = 57 THEN Append(Inc(SubSeq(d, 1, Len(d) - 1)), 48) ELSE [d EXCEPT ![Len(d)] = @ + 1]
Round(n, p) == IF Len(n.ds) <= p THEN n
   ELSE LET cut == SubSeq(n.ds, 1, p) up == n.ds[p + 1] >= 53 r == IF up THEN Inc(cut) ELSE cut IN
        [n EXCEPT !.ds = NoTail(r), !.e = IF Len(r) > p THEN @ + 1 ELSE @]
Zeros(k) == [i \in 1..k |-> 48]
NatText(n) == IntText([neg |-> FALSE, ds |-> LET f[k \in 0..9, m \in 0..n] == IF m = 0 THEN <<>> ELSE Append(f[k + 1, m \div 10], 48 + (m % 10)) IN f[0, n]])
G(n, p) == LET r == Round(n, p) sg == IF n.neg THEN <<45>> ELSE <<>> x == r.e - 1 d == r.ds IN
   IF d = <<>> THEN sg \o <<48>>
   ELSE IF x < -4 \/ x >= p
        THEN sg \o <<d[1]>> \o (IF Len(d) > 1 THEN <<46>> \o Tail(d) ELSE <<>>) \o <<101, IF x < 0 THEN 45 ELSE 43>>
             \o (LET a == IF x < 0 THEN -x ELSE x IN IF a < 10 THEN <<48, 48 + a>> ELSE NatText(a))
   ELSE IF x < 0 THEN sg \o <<48, 46>> \o Zeros(-x - 1) \o d
   ELSE IF Len(d) <= x + 1 THEN sg \o d \o Zeros(x + 1 - Len(d))
   ELSE sg \o SubSeq(d, 1, x + 1) \o <<46>> \o SubSeq(d, x + 2, Len(d))
G6(s) == G(DecIn(s), 6)

(* times, in milliseconds: a number of seconds, or parts between colons *)
Pad2(n) == IF n < 10 THEN <<48>> \o NatText(n) ELSE NatText(n)
Abs(n) == IF n < 0 THEN -n ELSE n
Pad3(n) == Zeros(IF n < 10 THEN 2 ELSE IF n < 100 THEN 1 ELSE 0) \o NatText(n)
TimeText(ms) ==
  LET s == ms \div 1000 h == s \div 3600 m == (s % 3600) \div 60 IN
  IF ms < 10000 THEN (IF ms < 0 THEN <<45>> ELSE <<>>) \o NatText(Abs(ms) \div 1000) \o <<46>> \o Pad3(Abs(ms) % 1000)
  ELSE (IF h > 0 THEN NatText(h) \o <<58>> \o Pad2(m) ELSE NatText(m)) \o <<58>> \o Pad2(s % 60)
Milli(n) == \* 0.ds * 10^(e+3), a whole number in all that is asked
  LET k == n.e + 3 - Len(n.ds) v == NatOf(n.ds \o Zeros(IF k > 0 THEN k ELSE 0)) IN IF n.ds = <<>> THEN 0 ELSE IF n.neg THEN -v ELSE v
SplitAt(s, S) == LET f[p \in 1..(Len(s) + 1)] == \* non-empty parts of s from p on
      IF p > Len(s) THEN <<>> ELSE IF s[p] \in S THEN f[p + 1]
      ELSE LET e == FindAny(s, p, S) q == IF e = 0 THEN Len(s) + 1 ELSE e IN <<SubSeq(s, p, q - 1)>> \o f[q] IN f[1]
TimeIn(s) == LET ps == SplitAt(s, {58}) ns == [i \in DOMAIN ps |-> DecIn(ps[i])] IN
   IF ps = <<>> \/ Len(ps) > 3 \/ \E i \in DOMAIN ns : ~ns[i].ok THEN Fail
   ELSE OkV(LET f[i \in 0..Len(ns)] == IF i = 0 THEN 0 ELSE f[i - 1] * 60 + Milli(ns[i]) IN f[Len(ns)])

----------------------------------------------------------------------------
(* types *)
Names == <<C("apple"), C("pear"), C("ripe_pear")>>
Yes == {C("1"), C("true"), C("yes")}
No == {C("0"), C("false"), C("no")}
Lists == {"vint", "vstr", "vvint", "vtime", "venum", "vnode", "vvec3"}
Elt(t) == CASE t = "vint" -> "int" [] t = "vstr" -> "str" [] t = "vvint" -> "vint" [] t = "vtime" -> "time" [] t = "venum" -> "enum" [] t = "vnode" -> "node" [] t = "vvec3" -> "vec3"
AllOk(xs) == \A i \in DOMAIN xs : xs[i].ok
Vals(xs) == [i \in DOMAIN xs |-> xs[i].v]
Child(n, k) == LET S == {i \in DOMAIN n.c : n.c[i].k = k} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
IsArray(n) == \A i \in DOMAIN n.c : n.c[i].k = <<>>
RECURSIVE LexLess(_, _), PutKey(_, _, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
(* entries [k, v] in the order of their keys *)
PutKey(es, k, v) == IF es = <<>> \/ LexLess(k, es[1].k) THEN <<[k |-> k, v |-> v]>> \o es
                    ELSE IF es[1].k = k THEN <<[k |-> k, v |-> v]>> \o Tail(es) ELSE <<es[1]>> \o PutKey(Tail(es), k, v)
Xyz == <<C("x"), C("y"), C("z")>>

RECURSIVE From(_, _), ToNode(_, _)
Number(s) == LET n == DecIn(s) IN IF n.ok THEN OkV(G(n, 15)) ELSE Fail
Three(n) == \* three numbers: [ 1 2 3 ], { x = 1 y = 2 z = 3 } or "1 2 3"
  IF Len(n.c) = 3
  THEN IF IsArray(n) THEN LET r == <<Number(n.c[1].n.v), Number(n.c[2].n.v), Number(n.c[3].n.v)>> IN IF AllOk(r) THEN OkV(Vals(r)) ELSE Fail
       ELSE IF \E i \in 1..3 : Child(n, Xyz[i]) = 0 THEN Fail
            ELSE LET r == [i \in 1..3 |-> Number(n.c[Child(n, Xyz[i])].n.v)] IN IF AllOk(r) THEN OkV(Vals(r)) ELSE Fail
  ELSE IF n.c = <<>> /\ n.v # <<>>
       THEN LET ps == SplitAt(n.v, {32, 9}) r == [i \in DOMAIN ps |-> Number(ps[i])] IN IF Len(ps) = 3 /\ AllOk(r) THEN OkV(Vals(r)) ELSE Fail
       ELSE Fail
From(t, n) ==
  CASE t \in Ints -> LET m == IntIn(n.v) IN IF IntOk(t, m) THEN OkV(IntText(m)) ELSE Fail
    [] t = "double" -> Number(n.v)
    [] t = "float" -> LET m == DecIn(n.v) IN IF m.ok THEN OkV(G(m, 6)) ELSE Fail
    [] t = "bool" -> IF n.v \in Yes THEN OkV(TRUE) ELSE IF n.v \in No THEN OkV(FALSE) ELSE Fail
    [] t \in {"str", "path", "proxy"} -> OkV(n.v)
    [] t = "time" -> TimeIn(n.v)
    [] t = "enum" -> LET S == {i \in DOMAIN Names : Names[i] = n.v} IN IF S = {} THEN Fail ELSE OkV(CHOOSE i \in S : TRUE)
    [] t \in Lists -> LET r == [i \in DOMAIN n.c |-> From(Elt(t), n.c[i].n)] IN IF AllOk(r) THEN OkV(Vals(r)) ELSE Fail
    [] t = "arr3" -> LET r == [i \in 1..Min2(3, Len(n.c)) |-> From("int", n.c[i].n)] IN
         IF AllOk(r) THEN OkV([i \in 1..3 |-> IF i <= Len(r) THEN r[i].v ELSE <<48>>]) ELSE Fail
    [] t = "map" -> LET r == [i \in DOMAIN n.c |-> From("int", n.c[i].n)] IN
         IF ~AllOk(r) THEN Fail ELSE OkV(LET f[i \in 0..Len(r)] == IF i = 0 THEN <<>> ELSE PutKey(f[i - 1], n.c[i].k, r[i].v) IN f[Len(r)])
    [] t = "vec3" -> Three(n)
    [] t = "scale" -> LET r == Three(n) one == Number(n.v) IN
         IF r.ok THEN r ELSE IF n.c = <<>> /\ one.ok THEN OkV(<<one.v, one.v, one.v>>) ELSE Fail
    [] t = "node" -> OkV(n)
ToNode(t, v) ==
  CASE t \in Ints \cup {"str", "path", "proxy"} -> T(v)
    [] t \in {"double", "float"} -> T(G6(v))
    [] t = "bool" -> T(IF v THEN <<49>> ELSE <<48>>)
    [] t = "time" -> T(TimeText(v))
    [] t = "enum" -> T(Names[v])
    [] t \in Lists -> N(<<>>, [i \in DOMAIN v |-> Kid(<<>>, ToNode(Elt(t), v[i]))])
    [] t = "map" -> N(<<>>, [i \in DOMAIN v |-> Kid(v[i].k, T(v[i].v))])
    [] t \in {"vec3", "scale"} -> N(<<>>, [i \in 1..3 |-> Kid(Xyz[i], T(G6(v[i])))])
    [] t = "node" -> v
Simple(t) == t \in Ints \cup {"str", "path", "double", "float", "bool", "time", "enum"}   \* the text alone is the value

----------------------------------------------------------------------------
(* a tree with values of several types under its keys *)
Put(n, k, x) == LET i == Child(n, k) IN IF i = 0 THEN [n EXCEPT !.c = Append(@, Kid(k, x))] ELSE [n EXCEPT !.c[i].n = x]
Get(n, k, t) == LET i == Child(n, k) IN IF i = 0 THEN Fail ELSE From(t, n.c[i].n)
GetOr(n, k, t, d) == IF Child(n, k) = 0 THEN OkV(d) ELSE Get(n, k, t)
(* the first of several keys, in the order in which they are asked for *)
FirstOf(n, ks) == LET S == {i \in DOMAIN ks : Child(n, ks[i]) > 0} IN IF S = {} THEN 0 ELSE Child(n, ks[CHOOSE i \in S : \A j \in S : i <= j])
GetAll(n, k, t) == LET s == SelectSeq(n.c, LAMBDA c : c.k = k) r == [i \in DOMAIN s |-> From(t, s[i].n)] IN IF AllOk(r) THEN OkV(Vals(r)) ELSE Fail

(* a type made from a node: an int with a default, a number that is required, an optional text, a list with a default *)
Limit == C("limit") Speed == C("speed") Name == C("name") Items == C("items")
Opt(n, k, t) == LET r == Get(n, k, t) IN IF r.ok /\ ~(t = "int" /\ r.v = C("-2147483648")) THEN <<r.v>> ELSE <<>>    \* an optional int uses that value for none
Conf1(n) == LET l == GetOr(n, Limit, "int", <<49, 48>>) s == Get(n, Speed, "double") it == GetOr(n, Items, "vint", <<<<55>>, <<56>>>>) IN
   IF l.ok /\ s.ok /\ it.ok THEN OkV([limit |-> l.v, speed |-> s.v, name |-> Opt(n, Name, "str"), size |-> Opt(n, C("size"), "int"), items |-> it.v]) ELSE Fail
ConfAll(n) == LET r == [i \in DOMAIN n.c |-> Conf1(n.c[i].n)] IN IF AllOk(r) THEN OkV(Vals(r)) ELSE Fail

(* text of a tree *)
RECURSIVE Str(_), Width(_, _), Lines(_, _, _)
Str(n) == LET arr == IsArray(n) body == Cat([i \in DOMAIN n.c |-> (IF arr THEN <<32>> ELSE <<32>> \o n.c[i].k \o C(" = ")) \o Str(n.c[i].n)]) IN
   IF n.c = <<>> THEN n.v ELSE n.v \o (IF n.v # <<>> THEN <<32>> ELSE <<>>) \o (IF arr THEN C("[") \o body \o C(" ]") ELSE C("{") \o body \o C(" }"))
Width(n, d) == LET f[i \in 0..Len(n.c)] == IF i = 0 THEN 0 ELSE Max2(f[i - 1], Max2(2 * d + Len(n.c[i].k), Width(n.c[i].n, d + 1))) IN f[Len(n.c)]
Spaces(k) == [i \in 1..k |-> 32]
(* one line per node; a key @5name has level 5 *)
Lines(n, d, a0) == LET a == IF a0 = 0 THEN Width(n, d) ELSE a0 IN
   LET f[i \in 0..Len(n.c)] == IF i = 0 THEN <<>> ELSE
         LET k == n.c[i].k x == n.c[i].n at == Len(k) >= 2 /\ k[1] = AT
             t == Spaces(2 * d) \o (IF at THEN SubSeq(k, 3, Len(k)) ELSE k) IN
         Append(f[i - 1], [l |-> IF at THEN k[2] - 48 ELSE 3, s |-> IF x.v # <<>> \/ x.c = <<>> THEN t \o Spaces(a - Len(t)) \o C(" = ") \o x.v ELSE t]) \o Lines(x, d + 1, a)
   IN f[Len(n.c)]

Ap(s, o) ==
  CASE o.op = "read" -> R(s, From(o.t, o.n))                  \* through every call that reads a value
    [] o.op = "write" -> R(s, OkV(ToNode(o.t, o.v)))           \* through every call that stores one
    [] o.op = "keep" -> R(s, From(o.t, ToNode(o.t, o.v)))      \* there and back
    [] o.op = "missing" -> R(s, OkV(o.v))                      \* no such key: a default, or nothing
    [] o.op = "set" -> R(Put(s, o.k, ToNode(o.t, o.v)), Ok)
    [] o.op = "add" -> R([s EXCEPT !.c = Append(@, Kid(o.k, ToNode(o.t, o.v)))], Ok)
    [] o.op = "value" -> R([s EXCEPT !.v = ToNode(o.t, o.v).v], Ok)
    [] o.op = "values" -> R([s EXCEPT !.c = @ \o [i \in DOMAIN o.v |-> Kid(<<>>, T(o.v[i]))]], Ok)
    [] o.op = "children" -> R([s EXCEPT !.c = @ \o [i \in 1..o.n |-> Kid(o.k, T(o.v))]], Ok)
    [] o.op = "get" -> R(s, Get(s, o.k, o.t))
    [] o.op = "get_or" -> R(s, GetOr(s, o.k, o.t, o.v))
    [] o.op = "get_at" -> R(s, IF o.i >= Len(s.c) THEN Fail ELSE From(o.t, s.c[o.i + 1].n))
    [] o.op = "get_any" -> R(s, LET i == FirstOf(s, o.ks) IN IF i = 0 THEN Fail ELSE From(o.t, s.c[i].n))
    [] o.op = "get_any_or" -> R(s, LET i == FirstOf(s, o.ks) IN IF i = 0 THEN OkV(o.v) ELSE From(o.t, s.c[i].n))
    [] o.op = "get_all" -> R(s, GetAll(s, o.k, o.t))
    [] o.op = "conf" -> R(s, Conf1(s))
    [] o.op = "confs" -> R(s, ConfAll(s))
    [] o.op = "props" -> R(s, OkV([limit |-> GetOr(s, Limit, "int", o.v), need |-> Get(s, Limit, "int"),
                                   keep |-> GetOr(s, Limit, "int", <<45, 49>>), had |-> Child(s, Limit) > 0, named |-> GetOr(s, Speed, "double", <<50>>), must |-> Get(s, Speed, "double")]))
    [] o.op = "setprop" -> R(Put(s, Limit, T(o.v)), Ok)
    [] o.op = "str" -> R(s, OkV(Str(s)))
    [] o.op = "log" -> R(s, OkV([w |-> Width(s, 0), l |-> Lines(s, 0, 0)]))

----------------------------------------------------------------------------
CONSTANTS Part, MaxLen, M
VARIABLES st, hist
vars == <<st, hist>>
Init == st = T(<<>>) /\ hist = <<>>
Do(o) == LET r == Ap(st, o) IN Len(hist) < MaxLen /\ st' = r.st /\ hist' = Append(hist, o @@ [ret |-> r.ret, obs |-> r.st])
P(p) == Part = p
Cs(S) == {C(s) : s \in S}

Numbers == Cs({"0", "-0", "7", "+12", "007", "-5", " 8", "12abc", "1 2", "", "-", "+", "x", " ", "--3", "1.5", "2147483646", "2147483647", "2147483648", "-2147483647", "-2147483648", "-2147483649",
  "4294967295", "4294967296", "4294967300", "8589934599", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
  "99999999999999999999", "-99999999999999999999", "0000000000000000000012", "18446744073709551617", "9223372036854775800"})
Negative(s) == LET n == IntIn(s) IN n.neg /\ n.ds # <<>>
Decs == Cs({"0", "-0", "1", "-1", "10", "100000", "999999", "1000000", "1234567", "-1234564", "0.1", "0.0001", "0.00001", "0.00012345", "12.5", "-12.5", ".5", "5.", "1e3", "1E3", "1e-3", "2.5e+2", "1e", "1e+", "123.456",
  "100.25", "0.1234567", "999999.7", "9999996", "1e20", "-1e-20", "1.5abc", "abc", "", ".", "-", "e5", "-.5", "+.25", " 3", "3 4", "1.2.3", "00.50", "1e05", "123456e-6", "1234567e-7", "6.02214e+23"})
Longs == {C("123456789"), C("0.123456789"), C("-98765.4321")}    \* more digits than a text of it has
Texts == Cs({"", "a", "a b", "true", "1", "yes", "0", "false", "no", "True", "yes ", "apple", "pear", "ripe_pear", "ripe", "pea", "pear ", "1 2 3", " 1  2 3 ", "1 2", "1 2 3 4", "1 x 3", "1:05", "0:12", "1:02:03", "12", "0:00:07.5", "::5", "1:2:3:4", "1:x", ":", "9.999", "-3.25"})
Times == {0, 1, 999, 1000, 1001, 9999, 10000, 10500, 11000, 59000, 59999, 60000, 65250, 3599000, 3600000, 3661000, 36610000, 86400000, -1, -1500, -65000, -3600000}
Small == Cs({"1", "x", "-2", "2147483648"})
Leaf == {T(v) : v \in Small} \cup {N(<<>>, <<Kid(<<>>, T(C("4")))>>)}
Keys2 == {<<>>, C("x"), C("y"), C("z"), C("b")}
Kids(m) == UNION {[1..k -> {Kid(k2, T(v)) : k2 \in Keys2, v \in Cs({"1", "q"})}] : k \in 0..m}
ArrKids(m) == UNION {[1..k -> {Kid(<<>>, x) : x \in Leaf}] : k \in 0..m}
Perms == {<<a, b, c>> \in ((1..3) \X (1..3) \X (1..3)) : a # b /\ b # c /\ a # c}
Named3 == {N(<<>>, [i \in 1..3 |-> Kid(Xyz[p[i]], T(C(v[p[i]])))]) : p \in Perms, v \in {<<"1", "2", "3">>, <<"1.5", "-2", "1e6">>, <<"1", "q", "3">>}}
SomeNodes == {T(<<>>), T(C("v")), N(C("v"), <<Kid(C("a"), T(C("1")))>>), N(<<>>, <<Kid(<<>>, N(<<>>, <<Kid(C("b"), T(C("2")))>>)), Kid(<<>>, T(<<>>))>>)}
Maps == {<<>>, <<[k |-> C("a"), v |-> C("1")]>>, <<[k |-> C("a"), v |-> C("1")], [k |-> C("b"), v |-> C("-2")]>>, <<[k |-> <<>>, v |-> C("9")], [k |-> C("Z"), v |-> C("3")], [k |-> C("aa"), v |-> C("1")]>>}
Seqs(S, m) == UNION {[1..k -> S] : k \in 0..m}
IntVals(t) == {s \in Numbers : LET n == IntIn(s) IN n.ok /\ ~(t \in {"uint", "ulong"} /\ n.neg) /\ IntOk(t, n) /\ s = IntText(n)}
DecVals == {s \in Decs : DecIn(s).ok /\ s = G(DecIn(s), 15)}
Short == {s \in DecVals : Len(DecIn(s).ds) <= 6}    \* what a text of it keeps entirely
Stored == \* type and value
  [t : {"int"}, v : IntVals("int")] \cup [t : {"uint"}, v : IntVals("uint")] \cup [t : {"long"}, v : IntVals("long")] \cup [t : {"ulong"}, v : IntVals("ulong")]
Good(o) == o.t \notin {"uint", "ulong"} \/ ~Negative(o.n.v)

WriteAll(k) ==
  \/ \E t \in Ints : \E v \in IntVals(t) : Do([op |-> k, t |-> t, v |-> v])
  \/ \E v \in (IF k = "write" THEN DecVals \cup Longs ELSE Short), t \in {"double", "float"} : (t = "double" \/ Len(DecIn(v).ds) <= 6) /\ (k = "write" \/ t = "double" \/ v = G6(v)) /\ Do([op |-> k, t |-> t, v |-> v])
  \/ \E t \in {"str", "path", "proxy"}, v \in (Texts \cup Numbers) \ Cs({"::5", ":"}) : (t # "path" \/ v \in Cs({"a", "a b", "", "1", "pear"})) /\ Do([op |-> k, t |-> t, v |-> v])
  \/ \E v \in BOOLEAN : Do([op |-> k, t |-> "bool", v |-> v])
  \/ \E v \in Times : Do([op |-> k, t |-> "time", v |-> v])
  \/ \E v \in 1..3 : Do([op |-> k, t |-> "enum", v |-> v])
  \/ \E v \in Seqs(Cs({"1", "-2147483648"}), M) : Do([op |-> k, t |-> "vint", v |-> v])
  \/ \E v \in Seqs(Cs({"", "a b"}), M) : Do([op |-> k, t |-> "vstr", v |-> v])
  \/ \E v \in Seqs({<<>>, <<C("3")>>, <<C("4"), C("5")>>}, 2) : Do([op |-> k, t |-> "vvint", v |-> v])
  \/ \E v \in Seqs({0, 12000, 65000}, 2) : Do([op |-> k, t |-> "vtime", v |-> v])
  \/ \E v \in Seqs(1..3, M) : Do([op |-> k, t |-> "venum", v |-> v])
  \/ \E v \in Seqs(SomeNodes, 2) : Do([op |-> k, t |-> "vnode", v |-> v])
  \/ \E v \in SomeNodes : Do([op |-> k, t |-> "node", v |-> v])
  \/ \E v \in Maps : Do([op |-> k, t |-> "map", v |-> v])
  \/ \E v \in [1..3 -> Cs({"1", "-2.5", "1e-05"})], t \in {"vec3", "scale"} : Do([op |-> k, t |-> t, v |-> v])
  \/ \E v \in Seqs({<<C("1"), C("2"), C("3")>>, <<C("0"), C("-1"), C("0.5")>>}, 2) : Do([op |-> k, t |-> "vvec3", v |-> v])
Read(t, n) == Do([op |-> "read", t |-> t, n |-> n])

K1 == {C("limit"), C("speed"), C("items"), C("name")}
Next ==
  \/ P("text") /\ \/ \E t \in Ints, s \in Numbers : (t \in {"int", "long"} \/ ~Negative(s)) /\ Read(t, T(s))
                  \/ \E t \in {"double", "float"}, s \in Decs \cup Longs : (t = "double" \/ (DecIn(s).ok => Len(DecIn(s).ds) <= 6)) /\ Read(t, T(s))
                  \/ \E t \in {"bool", "str", "enum", "time", "vec3", "scale", "proxy"}, s \in Texts : Read(t, T(s))
                  \/ \E t \in {"vec3", "scale"}, s \in Decs : Read(t, T(s))
                  \/ \E t \in {"int", "double", "bool", "str", "enum", "time", "vint", "map", "vec3", "scale", "arr3", "node"}, n \in SomeNodes : (t \in {"vint", "map", "arr3"} => n.v = <<>>) /\ Read(t, n)
  \/ P("lists") /\ \/ \E t \in {"vint", "vstr", "arr3", "vvint", "vec3"}, c \in ArrKids(M) : Read(t, N(<<>>, c))
                   \/ \E t \in {"map", "vec3", "scale", "vint", "arr3", "vnode", "node"}, c \in Kids(3) : Read(t, N(<<>>, c))
                   \/ \E t \in {"vec3", "scale", "map", "node"}, n \in Named3 : Read(t, n)
                   \/ \E c \in [1..4 -> {Kid(<<>>, T(v)) : v \in Cs({"1", "q"})}], t \in {"arr3", "vec3", "scale", "vint"} : Read(t, N(<<>>, c))
  \/ P("write") /\ (WriteAll("write") \/ WriteAll("keep") \/ WriteAll("missing"))
  \/ P("tree") /\ \/ \E k \in {Limit, Speed} : \/ \E v \in Cs({"3", "4x"}) : Do([op |-> "set", k |-> k, t |-> "str", v |-> v])
                                               \/ Do([op |-> "add", k |-> k, t |-> "double", v |-> C("0.25")])
                                               \/ \E t \in {"int", "double"} : \/ Do([op |-> "get", k |-> k, t |-> t])
                                                                               \/ Do([op |-> "get_or", k |-> k, t |-> t, v |-> C("77")])
                                                                               \/ Do([op |-> "get_all", k |-> k, t |-> t])
                  \/ \E v \in {<<>>, <<C("6")>>} : Do([op |-> "set", k |-> Items, t |-> "vint", v |-> v])
                  \/ Do([op |-> "set", k |-> Items, t |-> "str", v |-> C("")])
                  \/ Do([op |-> "set", k |-> Name, t |-> "str", v |-> C("n")])
                  \/ Do([op |-> "set", k |-> C("size"), t |-> "str", v |-> C("zz")])
                  \/ Do([op |-> "value", t |-> "int", v |-> C("5")])
                  \/ \E i \in 0..2 : Do([op |-> "get_at", i |-> i, t |-> "int"])
                  \/ \E ks \in {<<Limit, Speed>>, <<Speed, Limit>>, <<Name>>, <<Name, Speed>>} : Do([op |-> "get_any", ks |-> ks, t |-> "int"]) \/ Do([op |-> "get_any_or", ks |-> ks, t |-> "double", v |-> C("77")])
                  \/ Do([op |-> "conf"]) \/ Do([op |-> "props", v |-> C("9")]) \/ Do([op |-> "setprop", v |-> C("8")])
                  \/ Do([op |-> "str"]) \/ Do([op |-> "log"])
  \/ P("print") /\ \/ \E k \in {<<>>, C("ab"), C("@5c"), C("@"), C("@4")}, n \in SomeNodes \cup {N(<<>>, <<Kid(C("@2deep"), T(C("w"))), Kid(C("k"), T(<<>>))>>), N(C("q"), <<Kid(<<>>, N(C("p"), <<Kid(<<>>, T(C("r")))>>))>>)} :
                       Do([op |-> "add", k |-> k, t |-> "node", v |-> n])
                   \/ \E n \in 0..2, k \in {<<>>, C("k")}, v \in {<<>>, C("v")} : Do([op |-> "children", n |-> n, k |-> k, v |-> v])
                   \/ \E v \in Seqs(Cs({"1", "-2"}), 2) : Do([op |-> "values", v |-> v])
                   \/ Do([op |-> "add", k |-> <<>>, t |-> "node", v |-> N(<<>>, <<Kid(Limit, T(C("1"))), Kid(Speed, T(C("2")))>>)])
                   \/ Do([op |-> "value", t |-> "str", v |-> C("root")])
                   \/ Do([op |-> "str"]) \/ Do([op |-> "log"]) \/ Do([op |-> "confs"])
Spec == Init /\ [][Next]_vars
View == IF Part \in {"tree", "print"} THEN <<st>> ELSE IF hist = <<>> THEN <<>> ELSE <<hist[Len(hist)]>>

----------------------------------------------------------------------------
(* the property: what is stored is read back, entirely where its text has room for it *)
Lst == IF hist = <<>> THEN [op |-> "none"] ELSE hist[Len(hist)]
InvBack == Lst.op = "keep" => Lst.ret.ok /\ (Lst.t # "time" => Lst.ret.v = Lst.v)
                              /\ (Lst.t = "time" => IF Lst.v < 10000 THEN Lst.ret.v = Lst.v ELSE Lst.ret.v = (Lst.v \div 1000) * 1000)
                              /\ ToNode(Lst.t, Lst.ret.v) = ToNode(Lst.t, Lst.v)
(* a whole number is read as itself or refused *)
InvWhole == (Lst.op = "read" /\ Lst.t \in Ints) => (Lst.ret.ok => LET a == IntIn(Lst.n.v) b == IntIn(Lst.ret.v) IN b.ds = a.ds /\ (b.neg = a.neg \/ a.ds = <<>>))
(* a value that is there is never replaced by a default *)
InvDefault == Lst.op = "get_or" => (Lst.ret = OkV(Lst.v) => Child(st, Lst.k) = 0)
EmitEdge == EmitB(hist, hist'[Len(hist')])
=============================================================================
