------------------------------- MODULE Elems -------------------------------
(* Elements of containers and small value types: sets of flags, arrays of a given size, searching, *)
(* counting and copying elements, elements as a stream, elements in a text, plots of functions in  *)
(* text, hashes, and names of sides, enums, dates and identifiers.                                 *)
EXTENDS Conf, Bitwise
CONSTANTS Part, MaxLen, M

----------------------------------------------------------------------------
(* flags 1..F; the bits they stand for are in the driver *)
F == 5
FN == IF M = 2 THEN 3 ELSE 5   \* flags that calls are made with
Slots == 1..2
SeeFl(x) == [get |-> [i \in Slots |-> [f \in 1..F |-> f \in x[i]]], any |-> [i \in Slots |-> x[i] # {}]]
Put(S, f, v) == IF v THEN S \cup f ELSE S \ f
(* arrays *)
SeeDy(x) == [v |-> x, n |-> [i \in Slots |-> Len(x[i])], empty |-> [i \in Slots |-> x[i] = <<>>], eq |-> (x[1] = x[2])]
Many(n, v) == [i \in 1..n |-> v]
(* searching; indices count from 0, -1 is none *)
FirstOf(xs, from, P(_)) == LET I == {i \in DOMAIN xs : i > from /\ P(xs[i])} IN IF I = {} THEN -1 ELSE (CHOOSE i \in I : \A j \in I : i <= j) - 1
Number(xs, P(_)) == Cardinality({i \in DOMAIN xs : P(xs[i])})
Search(xs, e, from) == LET Is(x) == x = e Big(x) == x > e IN
  [find |-> FirstOf(xs, 0, Is), index |-> FirstOf(xs, from, Is), findif |-> FirstOf(xs, 0, Big), indexif |-> FirstOf(xs, from, Big),
   count |-> Number(xs, Is), countif |-> Number(xs, Big), any |-> Number(xs, Big) > 0, none |-> Number(xs, Big) = 0,
   contains |-> Number(xs, Is) > 0, containsif |-> Number(xs, Big) > 0, ref |-> IF Number(xs, Big) = 0 THEN -1 ELSE xs[FirstOf(xs, 0, Big) + 1],
   back |-> Len(xs) - 1, each |-> [i \in DOMAIN xs |-> 2 * xs[i] + e], at |-> [i \in DOMAIN xs |-> i - 1]]
CopyR(xs, ys) == [range |-> xs \o SubSeq(ys, Len(xs) + 1, Len(ys)), to |-> SubSeq(ys, 1, Len(xs)), append |-> xs \o ys]
(* the numbers in a text: w: the words, ends with one |-> last one is followed by the end of the text *)
IsNum(w) == w.n # -1000
NumsOf(ws) == LET I == {i \in DOMAIN ws : ~IsNum(ws[i])} n == IF I = {} THEN Len(ws) ELSE (CHOOSE i \in I : \A j \in I : i <= j) - 1 IN [i \in 1..n |-> ws[i].n]
Pairs(xs) == [i \in 1..(Len(xs) \div 2) |-> <<xs[2 * i - 1], xs[2 * i]>>]
ReadR(ws) == LET n == NumsOf(ws) all == Len(n) = Len(ws) IN
  [v |-> n, pairs |-> Pairs(n), words |-> [i \in DOMAIN ws |-> ws[i].t], file |-> IF all /\ n # <<>> THEN n ELSE <<"error">>]

----------------------------------------------------------------------------
(* plots: fs: values of functions at x = x0, ..., x0 + n - 1 (one per column); h rows.  Characters: *)
(* 0 space, 1 horizontal, 2 vertical, 3 top of the vertical, 4 bottom, 5 crossing, 10.. functions  *)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
Plot(fs, x0, h) ==
  LET w == Len(fs[1]) ys == UNION {ToSet(fs[k]) : k \in DOMAIN fs} lo == Least(ys) span == IF Most(ys) = lo THEN 1 ELSE Most(ys) - lo
      Row(y) == h - 1 - ((2 * (h - 1) * (y - lo) + span) \div (2 * span))
      r0 == Row(0) c0 == IF w = 1 THEN 0 ELSE 0 - x0 vert == x0 <= 0 /\ x0 + Most({1, w - 1}) >= 0
      Axis(r, c) == IF vert /\ c = c0 THEN (IF r = 0 THEN 3 ELSE IF r = r0 THEN 5 ELSE IF r = h - 1 THEN 4 ELSE 2)
                    ELSE IF r = 0 \/ r = h - 1 \/ r = r0 THEN 1 ELSE 0
      At(r, c) == LET K == {k \in DOMAIN fs : Row(fs[k][c + 1]) = r} IN IF K = {} THEN Axis(r, c) ELSE 10 + ((Most(K) - 1) % 4)
  IN [r \in 1..h |-> [c \in 1..w |-> At(r - 1, c - 1)]]

----------------------------------------------------------------------------
(* 64 bits as four numbers of 16 bits, lowest first *)
Basis == <<8997, 33826, 40164, 52210>>          \* 0xCBF29CE484222325
B16 == 65536
Carry(a, c) == LET x1 == a[1] + 0 x2 == a[2] + x1 \div B16 x3 == a[3] + x2 \div B16 x4 == a[4] + x3 \div B16 IN <<x1 % B16, x2 % B16, x3 % B16, x4 % B16>>
(* times 2^40 + 435 *)
Times(a) == Carry(<<435 * a[1], 435 * a[2], 435 * a[3] + (a[1] % 256) * 256, 435 * a[4] + a[1] \div 256 + (a[2] % 256) * 256>>, 0)
RECURSIVE Fnv(_, _)
Fnv(s, h) == IF s = <<>> THEN h ELSE Fnv(Tail(s), Times(<<h[1] ^^ s[1], h[2], h[3], h[4]>>))
Ascii(s) == \A i \in DOMAIN s : s[i] < 128

----------------------------------------------------------------------------
(* sides of names: _l and _r at the end *)
US == 95
SideOf(s) == IF Len(s) >= 2 /\ s[Len(s) - 1] = US THEN (IF s[Len(s)] = 108 THEN -1 ELSE IF s[Len(s)] = 114 THEN 1 ELSE 0) ELSE 0
Base(s) == IF SideOf(s) = 0 THEN s ELSE SubSeq(s, 1, Len(s) - 2)
Post(d) == CASE d = -1 -> <<US, 108>> [] d = 0 -> <<>> [] d = 1 -> <<US, 114>>
SideR(s, d, t) == [side |-> SideOf(s), base |-> Base(s), set |-> Base(s) \o Post(d), mirror |-> Base(s) \o Post(-SideOf(s)), before |-> Base(s) \o t \o Post(SideOf(s)), opp |-> -d, post |-> Post(d)]
(* identifiers: what follows the last point or colon, without underscores around it *)
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[1] = US THEN Strip(Tail(s)) ELSE IF s # <<>> /\ s[Len(s)] = US THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Tidy(s) == LET I == {i \in DOMAIN s : s[i] \in {46, 58}} IN Strip(IF I = {} THEN s ELSE SubSeq(s, Most(I) + 1, Len(s)))
(* enum: names in order *)
Names == <<"red", "green", "blue", "dark_red">>
EnumR(w) == LET I == {i \in DOMAIN Names : Names[i] = w} IN IF I = {} THEN Fail ELSE OkV(Most(I) - 1)
D2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
D4(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n) ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
DateText(y, m, d) == D4(y) \o "-" \o D2(m) \o "-" \o D2(d)
(* days since 1970 as a date *)
Civil(z0) == LET z == z0 + 719468 era == z \div 146097 doe == z % 146097
                 yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365 doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100) mp == (5 * doy + 2) \div 153
                 d == doy - (153 * mp + 2) \div 5 + 1 m == IF mp < 10 THEN mp + 3 ELSE mp - 9 IN <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, d>>
Moment(days, s) == LET c == Civil(days) IN DateText(c[1], c[2], c[3]) \o "_" \o D2(s \div 3600) \o "." \o D2((s \div 60) % 60) \o "." \o D2(s % 60)

----------------------------------------------------------------------------
(* names of types: p: the scopes the type is in and the type itself, each with a name n and template *)
(* arguments a, which are letters of numbers (i, d) or names                                        *)
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)
Sized(n) == ToString(Len(n)) \o n
Arg(a) == IF Len(a) = 1 THEN a ELSE Sized(a)
Part1(c) == Sized(c.n) \o (IF c.a = <<>> THEN "" ELSE "I" \o Cat([i \in DOMAIN c.a |-> Arg(c.a[i])]) \o "E")
Mangled(p) == IF Len(p) = 1 THEN Part1(p[1]) ELSE "N" \o Cat([i \in DOMAIN p |-> Part1(p[i])]) \o "E"
(* tables of words: the first entry counts *)
DictR(d, k, n) == LET byName == FirstOf(d, 0, LAMBDA e : e.n = n) byKey == FirstOf(d, 0, LAMBDA e : e.k = k) none == <<"error">> IN
  [name |-> IF byKey < 0 THEN none ELSE <<d[byKey + 1].n>>, key |-> IF byName < 0 THEN none ELSE <<d[byName + 1].k>>, or |-> IF byName < 0 THEN -77 ELSE d[byName + 1].k]
(* an owned object of class o is cast to class t: 1 is a base of 2 and 3, 2 is one of 4, 0 is none *)
Bases(o) == CASE o = 0 -> {} [] o = 1 -> {1} [] o = 2 -> {1, 2} [] o = 3 -> {1, 3} [] o = 4 -> {1, 2, 4}
CastR(o, t) == LET fits == t \in Bases(o) IN [try |-> [got |-> IF fits THEN o ELSE 0, left |-> IF fits THEN 0 ELSE o, live |-> IF o = 0 THEN 0 ELSE 1],
                                              cast |-> [got |-> IF fits THEN o ELSE 0, left |-> 0, live |-> IF fits THEN 1 ELSE 0], end |-> 0]

----------------------------------------------------------------------------
InitSt == [fl |-> [i \in Slots |-> {}], dy |-> [i \in Slots |-> <<>>], pd |-> 0]
Ap(s, o) ==
  CASE o.op \in {"fl_set", "fl_clear", "fl_new"} -> LET x == [s.fl EXCEPT ![o.i] = IF o.op = "fl_new" THEN ToSet(o.f) ELSE Put(@, ToSet(o.f), o.op = "fl_set" /\ o.v)] IN R([s EXCEPT !.fl = x], OkV(SeeFl(x)))
    [] o.op = "fl_toggle" -> LET x == [s.fl EXCEPT ![o.i] = Put(@, {o.f}, o.f \notin @)] IN R([s EXCEPT !.fl = x], OkV(SeeFl(x)))
    [] o.op = "fl_none" -> LET x == [s.fl EXCEPT ![o.i] = {}] IN R([s EXCEPT !.fl = x], OkV(SeeFl(x)))
    [] o.op = "fl_copy" -> LET x == [s.fl EXCEPT ![o.i] = s.fl[3 - o.i]] IN R([s EXCEPT !.fl = x], OkV(SeeFl(x)))
    [] o.op = "fl_q" -> R(s, OkV([any |-> \E k \in DOMAIN o.f : o.f[k] \in s.fl[o.i], count |-> Number(o.f, LAMBDA f : f \in s.fl[o.i])]))
    [] o.op \in {"dy_new", "dy_resize"} -> LET x == [s.dy EXCEPT ![o.i] = Many(o.n, o.v)] IN R([s EXCEPT !.dy = x], OkV(SeeDy(x)))
    [] o.op = "dy_alias" -> IF s.dy[o.i] = <<>> THEN R(s, Fail) ELSE LET x == [s.dy EXCEPT ![o.i] = Many(o.n, @[Len(@)])] IN R([s EXCEPT !.dy = x], OkV(SeeDy(x)))
    [] o.op = "dy_clear" -> LET x == [s.dy EXCEPT ![o.i] = <<>>] IN R([s EXCEPT !.dy = x], OkV(SeeDy(x)))
    [] o.op = "dy_assign" -> LET x == [s.dy EXCEPT ![o.i] = Many(Len(@), o.v)] IN R([s EXCEPT !.dy = x], OkV(SeeDy(x)))
    [] o.op = "dy_copy" -> LET x == [s.dy EXCEPT ![o.i] = s.dy[3 - o.i]] IN R([s EXCEPT !.dy = x], OkV(SeeDy(x)))
    [] o.op = "dy_move" -> LET x == [s.dy EXCEPT ![o.i] = s.dy[3 - o.i], ![3 - o.i] = <<>>] IN R([s EXCEPT !.dy = x], OkV(SeeDy(x)))
    [] o.op = "dy_self" -> R(s, OkV(SeeDy(s.dy)))
    [] o.op = "dy_at" -> R(s, IF o.k < Len(s.dy[o.i]) THEN OkV(s.dy[o.i][o.k + 1]) ELSE Fail)
    [] o.op = "dy_set" -> IF o.k >= Len(s.dy[o.i]) THEN R(s, Fail) ELSE LET x == [s.dy EXCEPT ![o.i][o.k + 1] = o.v] IN R([s EXCEPT !.dy = x], OkV(SeeDy(x)))
    [] o.op = "pd" -> R([s EXCEPT !.pd = @ + 1], OkV(s.pd % 3 = 0))
    [] o.op = "search" -> R(s, OkV(Search(o.xs, o.e, o.k)))
    [] o.op = "copy" -> R(s, OkV(CopyR(o.xs, o.ys)))
    [] o.op = "stream" -> R(s, OkV([v |-> o.v, q |-> o.q, x |-> o.x]))
    [] o.op = "words" -> R(s, OkV(ReadR(o.w)))
    [] o.op = "plot" -> R(s, OkV(Plot(o.f, o.x, o.h)))
    [] o.op = "hash" -> R(s, OkV(IF Ascii(o.s) THEN Fnv(o.s, Basis) ELSE <<-999, -999, -999, -999>>))
    [] o.op = "side" -> R(s, OkV(SideR(o.s, o.d, o.t)))
    [] o.op = "tidy" -> R(s, OkV(Tidy(o.s)))
    [] o.op = "enum" -> R(s, EnumR(o.w))
    [] o.op = "enumtext" -> R(s, OkV(Names[o.n + 1]))
    [] o.op = "date" -> R(s, OkV([t |-> DateText(o.y, o.m, o.d), back |-> <<o.y, o.m, o.d>>]))
    [] o.op = "dateread" -> R(s, IF o.ok THEN OkV(o.d) ELSE Fail)
    [] o.op = "moment" -> R(s, OkV(Moment(o.d, o.s)))
    [] o.op = "type" -> R(s, OkV([mangled |-> o.p[Len(o.p)].n, text |-> Mangled(o.p)]))
    [] o.op = "dict" -> R(s, OkV(DictR(o.d, o.k, o.n)))
    [] o.op = "cast" -> R(s, OkV(CastR(o.o, o.t)))
    [] o.op = "misc" -> R(s, OkV([pair |-> <<o.a + o.c, o.b + o.d, o.a - o.c, o.b - o.d>>, clone |-> <<o.a, o.b>>, kind |-> IF o.k = 1 THEN "int" ELSE IF o.k = 2 THEN "text" ELSE "flag", cast |-> o.a]))

----------------------------------------------------------------------------
VARIABLES st, hist
vars == <<st, hist>>
Init == st = InitSt /\ hist = <<>>
Do(o) == LET r == Ap(st, o) IN Len(hist) < MaxLen /\ st' = r.st /\ hist' = Append(hist, o @@ [ret |-> r.ret])
P(x) == Part = x
Seqs(X, n) == UNION {[1..m -> X] : m \in 0..n}
W(t, n) == [t |-> t, n |-> n]
Words == {W("1", 1), W("-2", -2), W("34", 34), W("x", -1000), W("+5", 5)}
SepSets == {" ", "\n", " \t ", "\n\n"}
Text == {97, US, 108, 114}
Comps == [n : {"xo", "a_type", "T9"}, a : {<<>>, <<"i">>, <<"d", "vec3">>}]
Next ==
  \/ P("flags") /\ \E i \in Slots : \/ \E f \in Seqs(1..FN, 2), v \in BOOLEAN : Do([op |-> "fl_set", i |-> i, f |-> f, v |-> v])
                                    \/ \E f \in Seqs(1..FN, 2), k \in {"fl_clear", "fl_q"} : Do([op |-> k, i |-> i, f |-> f])
                                    \/ \E f \in Seqs(1..FN, 3) : i = 1 /\ Do([op |-> "fl_new", i |-> i, f |-> f])
                                    \/ \E f \in 1..FN : Do([op |-> "fl_toggle", i |-> i, f |-> f])
                                    \/ \E k \in {"fl_none", "fl_copy"} : Do([op |-> k, i |-> i])
  \/ P("array") /\ \E i \in Slots : \/ \E n \in 0..M, v \in {0, 7}, k \in {"dy_new", "dy_resize"} : Do([op |-> k, i |-> i, n |-> n, v |-> v])
                                    \/ \E n \in 0..M : Do([op |-> "dy_alias", i |-> i, n |-> n])
                                    \/ \E k \in {"dy_clear", "dy_copy", "dy_move", "dy_self"} : Do([op |-> k, i |-> i])
                                    \/ \E v \in {0, 7} : Do([op |-> "dy_assign", i |-> i, v |-> v])
                                    \/ \E k \in 0..M : Do([op |-> "dy_at", i |-> i, k |-> k])
                                    \/ \E k \in 0..M, v \in {0, 7} : Do([op |-> "dy_set", i |-> i, k |-> k, v |-> v])
  \/ P("search") /\ \/ \E xs \in Seqs(0..2, M), e \in -1..2, k \in 0..M : Do([op |-> "search", xs |-> xs, e |-> e, k |-> k])
                    \/ \E xs \in Seqs({1, 2}, 3), ys \in Seqs({7, 8}, 4) : Len(xs) <= Len(ys) /\ Do([op |-> "copy", xs |-> xs, ys |-> ys])
                    \/ \E v \in [1..3 -> {-1, 5}], q \in [1..4 -> {0, 3}], x \in {-7, 9} : Do([op |-> "stream", v |-> v, q |-> q, x |-> x])
  \/ P("words") /\ \E w \in Seqs(Words, M), s \in SepSets, lead \in BOOLEAN, end \in BOOLEAN : Do([op |-> "words", w |-> w, s |-> s, lead |-> lead, end |-> end])
  \/ P("plot") /\ \E n \in 1..4, h \in {1, 2, 3, 4, 7}, x \in {-4, -1, 0, 1} :
                     \/ \E f \in [1..n -> {-3, 0, 1, 4}] : Do([op |-> "plot", f |-> <<f>>, x |-> x, h |-> h])
                     \/ \E f \in [1..2 -> {-2, 0}], g \in [1..2 -> {-1, 3}], k \in BOOLEAN : n = 2 /\ Do([op |-> "plot", f |-> IF k THEN <<f, g>> ELSE <<f, g, f, f, g>>, x |-> x, h |-> h])
  \/ P("names") /\ \/ \E s \in Seqs({0 + 1, 97, 122, 255, 128}, 3) : Do([op |-> "hash", s |-> s])
                   \/ \E s \in Seqs(Text, 4), d \in -1..1, t \in {<<>>, <<97>>, <<US, 108>>} : Do([op |-> "side", s |-> s, d |-> d, t |-> t])
                   \/ \E s \in Seqs({97, 46, 58, US}, M) : Do([op |-> "tidy", s |-> s])
                   \/ \E w \in ToSet(Names) \cup {"", "re", "redd", "RED", "dark", "red,", "dark_red ", ","}, e \in BOOLEAN : Do([op |-> "enum", w |-> w, end |-> e])
                   \/ \E n \in 0..3 : Do([op |-> "enumtext", n |-> n])
                   \/ \E y \in {0, 7, 99, 999, 2024, 9999}, m \in 1..12, d \in {1, 9, 10, 31} : Do([op |-> "date", y |-> y, m |-> m, d |-> d])
                   \/ \E s \in {<<"2024-01-02", TRUE>>, <<"2024.01.02", TRUE>>, <<"2024/1/2", TRUE>>, <<"2024-01", FALSE>>, <<"", FALSE>>, <<"2024-x-02", FALSE>>, <<"1-2-3-4", FALSE>>, <<"a-b-c", FALSE>>} :
                        Do([op |-> "dateread", s |-> s[1], ok |-> s[2], d |-> <<2024, 1, 2>>])
                   \/ \E d \in {0, 1, 58, 59, 60, 364, 365, 789, 790, 11016, 11017, 19782, 19783, 24836, 47541, 47540}, s \in {0, 59, 60, 3599, 3600, 43200, 86399} : Do([op |-> "moment", d |-> d, s |-> s])
                   \/ \E a, b \in {-1, 0, 5}, c, d \in {2, -3}, k \in 1..3 : Do([op |-> "misc", a |-> a, b |-> b, c |-> c, d |-> d, k |-> k])
                   \/ Do([op |-> "pd"])
  \/ P("types") /\ \/ \E c \in Comps : Do([op |-> "type", p |-> <<c>>])
                   \/ \E c, d \in Comps : Do([op |-> "type", p |-> <<c, d>>])
                   \/ M > 2 /\ \E b \in {[n |-> "xo", a |-> <<>>], [n |-> "map", a |-> <<"i">>]}, c, d \in Comps : Do([op |-> "type", p |-> <<b, c, d>>])
                   \/ \E d \in Seqs([k : {1, 2}, n : {"a", "ab"}], M), k \in {1, 2, 3}, n \in {"a", "ab", ""} : Do([op |-> "dict", d |-> d, k |-> k, n |-> n])
                   \/ \E o \in 0..4, t \in 1..4 : Do([op |-> "cast", o |-> o, t |-> t])
Spec == Init /\ [][Next]_vars
View == IF Part \in {"flags", "array"} THEN <<st>> ELSE IF hist = <<>> THEN <<>> ELSE <<st, hist[Len(hist)]>>

----------------------------------------------------------------------------
(* the property *)
Lst == IF hist = <<>> THEN [op |-> "none"] ELSE hist[Len(hist)]
(* every toggled flag comes back, and no call touches a flag it does not name *)
InvFlags == P("flags") => \A i \in Slots, f \in 1..F : st.fl[i] \subseteq 1..F /\ Put(Put(st.fl[i], {f}, f \notin st.fl[i]), {f}, f \in st.fl[i]) = st.fl[i]
InvSearch == Lst.op = "search" => LET r == Search(Lst.xs, Lst.e, Lst.k) IN
               /\ (r.find >= 0) = (r.count > 0) /\ r.any = ~r.none /\ r.any = (r.countif > 0) /\ (r.index >= 0 => r.index >= r.find)
               /\ r.find >= 0 => Lst.xs[r.find + 1] = Lst.e /\ \A i \in 1..r.find : Lst.xs[i] # Lst.e
InvSide == Lst.op = "side" => LET r == SideR(Lst.s, Lst.d, Lst.t) IN SideR(r.mirror, Lst.d, Lst.t).mirror = Lst.s /\ (Lst.d # 0 => SideOf(r.set) = Lst.d)
(* every value of every function is in its column, at least for the last one *)
InvPlot == Lst.op = "plot" => LET g == Plot(Lst.f, Lst.x, Lst.h) k == Len(Lst.f) IN \A c \in DOMAIN Lst.f[k] : \E r \in DOMAIN g : g[r][c] = 10 + ((k - 1) % 4)
InvMoment == Lst.op = "moment" => LET c == Civil(Lst.d) n == Civil(Lst.d + 1) IN c[2] \in 1..12 /\ c[3] \in 1..31 /\ ((n[3] = c[3] + 1 /\ n[2] = c[2]) \/ (n[3] = 1 /\ c[3] >= 28))
(* what one owner has, no other has, and nothing is left in the end *)
InvCast == Lst.op = "cast" => LET r == CastR(Lst.o, Lst.t) IN \A x \in {r.try, r.cast} : ~(x.got # 0 /\ x.left # 0) /\ x.live = (IF x.got # 0 \/ x.left # 0 THEN 1 ELSE 0)
EmitEdge == EmitB(hist, hist'[Len(hist')])
=============================================================================
