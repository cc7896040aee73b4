-------------------------------- MODULE Tables -------------------------------
(* Labelled grids.  cl: labels of the columns (channels), rl: labels of the rows, "": no label.    *)
(* g: the cells, one sequence per row (frame).  Kind "lv": label_vector (labels only), "sto":      *)
(* multichannel storage (frames have no labels), "tab": table.                                     *)
EXTENDS Conf

InitSt == [cl |-> <<>>, rl |-> <<>>, g |-> <<>>]
Idx(s, l) == IF l # "" /\ (\E i \in DOMAIN s : s[i] = l) THEN (CHOOSE i \in DOMAIN s : s[i] = l) - 1 ELSE -1
Rep(n, v) == [i \in 1..n |-> v]
Cell(s, i, j, v) == IF i <= Len(s.g) /\ j <= Len(s.cl) THEN s.g[i][j] ELSE v
(* grown to r rows and c columns, new cells are v *)
Grow(s, isTab, r, c, v) ==
  [cl |-> s.cl \o Rep(c - Len(s.cl), ""), rl |-> IF isTab THEN s.rl \o Rep(r - Len(s.rl), "") ELSE <<>>,
   g |-> [i \in 1..r |-> [j \in 1..c |-> Cell(s, i, j, v)]]]
NR(s) == Len(s.g)
NC(s) == Len(s.cl)
AddCol(s, t, l, v) == [Grow(s, t, NR(s), NC(s) + 1, v) EXCEPT !.cl[NC(s) + 1] = l]
AddRow(s, l, v) == [Grow(s, TRUE, NR(s) + 1, NC(s), v) EXCEPT !.rl[NR(s) + 1] = l]
GoaCol(s, t, l, v) == IF Idx(s.cl, l) >= 0 THEN s ELSE AddCol(s, t, l, v)
GoaRow(s, l, v) == IF Idx(s.rl, l) >= 0 THEN s ELSE AddRow(s, l, v)
Labelled(q) == \A i \in DOMAIN q : q[i] # ""
Col(s, j) == [i \in 1..NR(s) |-> s.g[i][j + 1]]
Sorted(q) == \A i \in 1..(Len(q) - 1) : q[i] <= q[i + 1]
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
RECURSIVE Join(_, _)
Join(q, t) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN Head(q) ELSE Head(q) \o t \o Join(Tail(q), t)
Line(q) == Join(q, "\t") \o "\n"
Nums(q) == [i \in DOMAIN q |-> ToString(q[i])]
RECURSIVE Lines(_)
Lines(q) == IF q = <<>> THEN "" ELSE Line(Head(q)) \o Lines(Tail(q))
TextOf(k, s) == IF k = "sto" THEN (IF s.cl = <<>> THEN "" ELSE Line(s.cl) \o Lines([i \in DOMAIN s.g |-> Nums(s.g[i])]))
                ELSE Line(<<"Row">> \o s.cl) \o Lines([i \in DOMAIN s.g |-> <<s.rl[i]>> \o Nums(s.g[i])])
CanRead(k, s) == Labelled(s.cl) /\ Labelled(s.rl) /\ (k = "tab" \/ s.cl # <<>>)

(* write_debug: a new frame starts when a channel is written that has a value already *)
RECURSIVE Debug(_, _)
Debug(s, w) == IF w = <<>> THEN s ELSE
  LET a == GoaCol(s, FALSE, w[1].l, -999) j == Idx(a.cl, w[1].l) + 1
      b == IF a.g = <<>> THEN Grow(a, FALSE, 1, NC(a), -999)
           ELSE IF a.g[NR(a)][j] # -999 THEN Grow(a, FALSE, NR(a) + 1, NC(a), -999) ELSE a IN
  Debug([b EXCEPT !.g[NR(b)][j] = w[1].v], Tail(w))

Apply(k, s, o) == LET T == k = "tab" IN
  CASE o.op = "add_col" -> IF Idx(s.cl, o.l) >= 0 THEN R(s, Fail) ELSE R(AddCol(s, T, o.l, o.v), OkV(NC(s)))
    [] o.op = "add_row" -> IF Idx(s.rl, o.l) >= 0 THEN R(s, Fail) ELSE R(AddRow(s, o.l, o.v), OkV(NR(s)))
    [] o.op = "add_col_data" -> IF Idx(s.cl, o.l) >= 0 THEN R(s, Fail)
         ELSE LET b == [Grow(s, FALSE, Max2(NR(s), Len(o.d)), NC(s) + 1, 0) EXCEPT !.cl[NC(s) + 1] = o.l] IN
              R([b EXCEPT !.g = [i \in 1..NR(b) |-> IF i <= Len(o.d) THEN [@[i] EXCEPT ![NC(b)] = o.d[i]] ELSE @[i]]], OkV(NC(s)))
    [] o.op = "goa_col" -> LET b == GoaCol(s, T, o.l, o.v) IN R(b, OkV(Idx(b.cl, o.l)))
    [] o.op = "goa_row" -> LET b == GoaRow(s, o.l, o.v) IN R(b, OkV(Idx(b.rl, o.l)))
    [] o.op = "find" -> R(s, IF Idx(s.cl, o.l) < 0 THEN Fail ELSE OkV(Idx(s.cl, o.l)))
    [] o.op = "set_label" -> IF o.i >= NC(s) \/ Idx(s.cl, o.l) >= 0 THEN R(s, Fail) ELSE R([s EXCEPT !.cl[o.i + 1] = o.l], Ok)
    [] o.op = "add_frame" -> R(Grow(s, FALSE, NR(s) + 1, NC(s), o.v), OkV(Rep(NC(s), o.v)))
    [] o.op = "add_frame_data" -> IF Len(o.d) # NC(s) THEN R(s, Fail) ELSE R([s EXCEPT !.g = Append(@, o.d)], OkV(o.d))
    [] o.op = "clear" -> R(InitSt, Ok)
    [] o.op = "make" -> R(IF k = "lv" THEN [InitSt EXCEPT !.cl = o.ls] ELSE Grow(InitSt, T, o.r, o.c, o.v), Ok)
    [] o.op = "resize" -> IF o.c < NC(s) \/ (k # "lv" /\ o.r < NR(s)) THEN R(s, Fail)
                          ELSE R(Grow(s, T, IF k = "lv" THEN 0 ELSE o.r, o.c, o.v), Ok)
    [] o.op = "set" -> IF o.i >= NR(s) \/ o.j >= NC(s) THEN R(s, Fail) ELSE R([s EXCEPT !.g[o.i + 1][o.j + 1] = o.v], OkV(o.v))
    [] o.op = "set_back" -> IF NR(s) = 0 \/ o.j >= NC(s) THEN R(s, Fail) ELSE R([s EXCEPT !.g[NR(s)][o.j + 1] = o.v], OkV(o.v))
    [] o.op = "fset" -> IF o.i >= NR(s) THEN R(s, Fail)
                        ELSE LET b == GoaCol(s, FALSE, o.l, 0) IN R([b EXCEPT !.g[o.i + 1][Idx(b.cl, o.l) + 1] = o.v], OkV(o.v))
    [] o.op = "fget" -> R(s, IF o.i >= NR(s) \/ Idx(s.cl, o.l) < 0 THEN Fail ELSE OkV(s.g[o.i + 1][Idx(s.cl, o.l) + 1]))
    [] o.op = "lset" -> LET b == GoaRow(GoaCol(s, TRUE, o.l, 0), o.m, 0) IN
                        R([b EXCEPT !.g[Idx(b.rl, o.m) + 1][Idx(b.cl, o.l) + 1] = o.v], OkV(o.v))
    [] o.op = "lget" -> R(s, IF Idx(s.cl, o.l) < 0 \/ Idx(s.rl, o.m) < 0 THEN Fail ELSE OkV(s.g[Idx(s.rl, o.m) + 1][Idx(s.cl, o.l) + 1]))
    [] o.op = "vec" -> IF o.i >= NR(s) THEN R(s, Fail) ELSE
         LET W(b, l, v) == LET x == GoaCol(b, FALSE, l, 0) IN [x EXCEPT !.g[o.i + 1][Idx(x.cl, l) + 1] = v]
             q == IF o.q THEN W(s, "p.w", o.v + 3) ELSE s IN
         R(W(W(W(q, "p.x", o.v), "p.y", o.v + 1), "p.z", o.v + 2), OkV(<<o.v, o.v + 1, o.v + 2>> \o (IF o.q THEN <<o.v + 3>> ELSE <<>>)))
    [] o.op = "channel" -> R(s, IF Idx(s.cl, o.l) < 0 THEN Fail ELSE OkV(Col(s, Idx(s.cl, o.l))))
    \* the value at a quarter frame index, times 4
    [] o.op = "interp" -> LET f == o.q \div 4 w == o.q % 4 IN
         R(s, IF o.j >= NC(s) \/ f + 1 >= NR(s) THEN Fail ELSE OkV((4 - w) * s.g[f + 1][o.j + 1] + w * s.g[f + 2][o.j + 1]))
    \* the distance of the closest frame
    [] o.op = "nearest" -> R(s, IF NC(s) = 0 \/ NR(s) = 0 THEN OkV(-1) ELSE IF o.j >= NC(s) \/ ~Sorted(Col(s, o.j)) THEN Fail
         ELSE OkV(CHOOSE d \in {Abs(s.g[i][o.j + 1] - o.x) : i \in 1..NR(s)} : \A i \in 1..NR(s) : d <= Abs(s.g[i][o.j + 1] - o.x)))
    \* the covariance of two channels, times the third power of the number of frames (1, 2 or 4)
    [] o.op = "cov" -> LET n == NR(s) IN
         R(s, IF n \notin {1, 2, 4} THEN Fail ELSE
              LET S == [j \in 1..NC(s) |-> Sum(Col(s, j - 1))] IN
              OkV([mean |-> S, cov |-> [a \in 1..NC(s) |-> [b \in 1..NC(s) |-> Sum([i \in 1..n |-> (n * s.g[i][a] - S[a]) * (n * s.g[i][b] - S[b])])]]]))
    [] o.op = "text" -> R(s, OkV(TextOf(k, s)))
    [] o.op = "file" -> R(s, OkV(IF NC(s) = 0 \/ NR(s) = 0 THEN "" ELSE TextOf(k, s)))
    [] o.op = "reread" -> R(s, IF CanRead(k, s) THEN OkV(s) ELSE Fail)
    [] o.op = "debug" -> R(s, OkV(Debug(InitSt, o.w)))
All == <<"a", "b", "c", "d", "p.x", "">>
Obs(k, s) == [cl |-> s.cl, rl |-> s.rl, g |-> s.g, cf |-> [i \in DOMAIN All |-> Idx(s.cl, All[i])], rf |-> [i \in DOMAIN All |-> Idx(s.rl, All[i])],
              empty |-> NR(s) = 0 \/ NC(s) = 0]
Distinct(q) == \A a, b \in DOMAIN q : a # b /\ q[a] = q[b] => q[a] = ""

----------------------------------------------------------------------------
CONSTANTS Kind, Names, MaxR, MaxC, MaxLen
VARIABLES st, hist
vars == <<st, hist>>
Init == st = InitSt /\ hist = <<>>
Do(o) == LET r == Apply(Kind, st, o) IN
  /\ Len(hist) < MaxLen
  /\ NR(r.st) <= MaxR /\ NC(r.st) <= MaxC
  /\ st' = r.st
  /\ hist' = Append(hist, o @@ [ret |-> r.ret, obs |-> Obs(Kind, r.st)])
V == Len(hist) + 1
Lv == Kind = "lv"
Sto == Kind = "sto"
Tab == Kind = "tab"
Vals == [i \in 1..9 |-> 10 * V + i]
DoAddCol == \E l \in Names : Do([op |-> "add_col", l |-> l, v |-> V]) \/ Do([op |-> "goa_col", l |-> l, v |-> V])
DoAddRow == Tab /\ \E l \in Names : Do([op |-> "add_row", l |-> l, v |-> V]) \/ Do([op |-> "goa_row", l |-> l, v |-> V])
DoAddData == Sto /\ \E l \in Names, n \in 0..MaxR : Do([op |-> "add_col_data", l |-> l, d |-> SubSeq(Vals, 1, n)])
DoFind == ~Tab /\ \E l \in Names : Do([op |-> "find", l |-> l])
DoSetLabel == ~Tab /\ \E l \in Names, i \in 0..NC(st) : Do([op |-> "set_label", i |-> i, l |-> l])
DoFrame == Sto /\ (Do([op |-> "add_frame", v |-> V]) \/ \E n \in 0..MaxC : Do([op |-> "add_frame_data", d |-> SubSeq(Vals, 1, n)]))
DoClear == ~Tab /\ Do([op |-> "clear"])
DoMake == hist = <<>> /\
  IF Lv THEN \E w \in {"list", "vector"}, ls \in {<<>>, <<"a">>, <<"b", "a">>, <<"c", "a", "b">>} : Do([op |-> "make", how |-> w, ls |-> ls])
  ELSE \E r \in 0..MaxR, c \in 0..MaxC : Do([op |-> "make", r |-> r, c |-> c, v |-> IF Tab THEN 0 ELSE 7])
DoResize == \E c \in 0..MaxC, r \in (IF Lv THEN {0} ELSE 0..MaxR) : Do([op |-> "resize", r |-> r, c |-> c, v |-> IF Lv THEN 0 ELSE V])
DoSet == ~Lv /\ \E i \in 0..Min2(NR(st), MaxR), j \in 0..NC(st) : (Tab \/ (i < NR(st) /\ j < NC(st))) /\ Do([op |-> "set", i |-> i, j |-> j, v |-> V])
DoSetBack == ~Lv /\ NR(st) > 0 /\ \E j \in 0..(MaxC - 1) : j < NC(st) /\ Do([op |-> "set_back", j |-> j, v |-> V])
DoFset == Sto /\ \E i \in 0..(MaxR - 1), l \in Names : i < NR(st) /\ (Do([op |-> "fset", i |-> i, l |-> l, v |-> V]) \/ Do([op |-> "fget", i |-> i, l |-> l]))
DoLset == Tab /\ \E m, l \in Names : Do([op |-> "lset", m |-> m, l |-> l, v |-> V]) \/ Do([op |-> "lget", m |-> m, l |-> l])
DoLget == Tab /\ \E i \in 0..MaxR, l \in Names : Do([op |-> "fget", i |-> i, l |-> l])
DoVec == Sto /\ MaxC > 4 /\ \E i \in 0..(MaxR - 1), q \in BOOLEAN : i < NR(st) /\ Do([op |-> "vec", i |-> i, v |-> V, q |-> q])
DoChannel == Sto /\ \E l \in Names : Do([op |-> "channel", l |-> l])
DoInterp == Sto /\ \E q \in 0..(4 * MaxR), j \in 0..(MaxC - 1) : j < NC(st) /\ Do([op |-> "interp", q |-> q, j |-> j])
DoNearest == Sto /\ \E j \in 0..(MaxC - 1), x \in 0..(V + 1) : (j < NC(st) \/ st.g = <<>>) /\ Do([op |-> "nearest", x |-> x, j |-> j])
DoCov == Sto /\ Do([op |-> "cov"])
DoText == ~Lv /\ Do([op |-> "text"])
DoFile == Sto /\ Do([op |-> "file"])
DoReread == ~Lv /\ \E sep \in {"\t", " ", " \t "} : Do([op |-> "reread", sep |-> sep])
Next == \/ DoAddCol \/ DoAddRow \/ DoAddData \/ DoFind \/ DoSetLabel \/ DoFrame \/ DoClear \/ DoMake \/ DoResize \/ DoSet \/ DoSetBack \/ DoFset \/ DoLset
        \/ DoLget \/ DoVec \/ DoChannel \/ DoInterp \/ DoNearest \/ DoCov \/ DoText \/ DoFile \/ DoReread
Spec == Init /\ [][Next]_vars
InvShape == /\ Distinct(st.cl) /\ Distinct(st.rl)
            /\ (Tab => Len(st.rl) = NR(st)) /\ \A i \in 1..NR(st) : Len(st.g[i]) = NC(st)
Shape == <<st.cl, st.rl, NR(st), IF hist = <<>> THEN 0 ELSE 1>>
EmitEdge == EmitBI([kind |-> Kind], [i \in 1..(Len(hist') - 1) |-> hist'[i]], hist'[Len(hist')])
EmitRun == Len(hist) = MaxLen => EmitBI([kind |-> Kind], SubSeq(hist, 1, MaxLen - 1), hist[MaxLen])
=============================================================================
