-------------------------------- MODULE Incr --------------------------------
(* Small stateful helpers: cached values, change detectors, running averages, optional values,     *)
(* results, indices, bounded values, intervals, functions given by points, delay lines; and the    *)
(* ranges and views that are visited element by element.  Every call returns what can be seen of   *)
(* its object afterwards.                                                                          *)
EXTENDS Conf
CONSTANTS Part, MaxLen, MaxV, MaxN, Rich

Absent == -1000
Q == 840  \* all divisors up to 8
RECURSIVE SumTo(_, _)
SumTo(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumTo(q, n - 1)
(* quotient of integers where it is known to be one *)
RECURSIVE Div(_, _)
Div(a, b) == IF b < 0 THEN Div(-a, -b) ELSE IF a < 0 THEN -((-a) \div b) ELSE a \div b
Clamp(v, l, u) == IF v < l THEN l ELSE IF v > u THEN u ELSE v

----------------------------------------------------------------------------
(* delay lines: N values, a new one every W ticks; in quarters of nothing: all integers *)
DelayNew(n, w, v, smooth) == [n |-> n, w |-> w, t |-> 0, d |-> [i \in 1..n |-> IF smooth THEN v * w ELSE v], x |-> 0, smooth |-> smooth]
(* d[1] is the newest value *)
Shift(d, v) == <<v>> \o SubSeq(d, 1, Len(d) - 1)
DelayAdd(s, v, dt) ==
  LET t == s.t + dt IN
  IF s.smooth THEN
    IF t >= s.w THEN [s EXCEPT !.d = Shift(@, s.x + (s.w - s.t) * v), !.t = t - s.w, !.x = (t - s.w) * v] ELSE [s EXCEPT !.t = t, !.x = @ + v * dt]
  ELSE IF 2 * t + dt > 2 * s.w THEN [s EXCEPT !.d = Shift(@, v), !.t = t - s.w] ELSE [s EXCEPT !.t = t]
(* times w, or w * w for a smooth one *)
Delayed(s) == s.t * s.d[s.n - 1] + (s.w - s.t) * s.d[s.n]

----------------------------------------------------------------------------
(* functions given by points, sorted by x *)
RECURSIVE Put(_, _, _)
Put(f, x, y) == IF f = <<>> \/ (f # <<>> /\ f[1][1] > x) THEN <<<<x, y>>>> \o f
                ELSE IF f[1][1] = x THEN <<<<x, y>>>> \o Tail(f) ELSE <<f[1]>> \o Put(Tail(f), x, y)
(* places x are in halves *)
ConstAt(f, x2) == LET I == {i \in DOMAIN f : 2 * f[i][1] <= x2} IN IF I = {} THEN f[1][2] ELSE f[CHOOSE i \in I : \A j \in I : j <= i][2]
LinAt(f, x2) == LET I == {i \in DOMAIN f : 2 * f[i][1] < x2} k == Cardinality(I) i == Clamp(k, 1, Len(f) - 1)
                    w == f[i + 1][1] - f[i][1] IN
                Div(2 * Q * w * f[i][2] + (f[i + 1][2] - f[i][2]) * (x2 - 2 * f[i][1]) * Q, 2 * w)
Places == [k \in 1..13 |-> k - 5]    \* -4/2 .. 8/2
(* function of T with values f at lo, lo + st, ...; t in quarters *)
RegAt(f, lo, st, x4) == LET d == x4 - 4 * lo fl == IF d >= 0 THEN d \div (4 * st) ELSE -((-d + 4 * st - 1) \div (4 * st))
                            i == Clamp(fl, 0, Len(f) - 2) IN
                        4 * st * f[i + 1] + (d - 4 * st * i) * (f[i + 2] - f[i + 1])

----------------------------------------------------------------------------
(* ranges and views *)
RECURSIVE Visit(_, _, _)
Visit(b, e, s) == IF (s > 0 /\ b >= e) \/ (s < 0 /\ b <= e) THEN <<>> ELSE <<b>> \o Visit(b + s, e, s)
FloatRange(l, u, n) == [size |-> n, v |-> [k \in 1..n |-> IF n = 1 THEN l * Q ELSE l * Q + Div((k - 1) * (u - l) * Q, n - 1)]]
(* half away from zero *)
Round(a, b) == (2 * a + b) \div (2 * b)

----------------------------------------------------------------------------
Slots == 1..2
Missing == [has |-> FALSE, v |-> 0]
Some(v) == [has |-> TRUE, v |-> v]
IxNone == [m |-> FALSE, v |-> 0]
InitSt == [cv |-> [t |-> 0, v |-> 7], dl |-> 0, av |-> [tv |-> 0, tw |-> 0], op |-> [k \in {"int", "double", "bool", "string"} |-> [i \in Slots |-> Missing]],
           rs |-> [i \in Slots |-> [e |-> <<>>, v |-> 0]], em |-> <<>>, ix |-> [k \in {"u8", "u32"} |-> [i \in Slots |-> Missing]], bd |-> 0, bo |-> <<0, 0>>,
           pc |-> <<>>, pl |-> <<>>, dy |-> DelayNew(2, 4, 0, FALSE)]

SeeAv(a) == [empty |-> a.tw = 0, mean |-> IF a.tw = 0 THEN 0 ELSE IF (a.tv * Q) % a.tw = 0 THEN Div(a.tv * Q, a.tw) ELSE -999]
SeeOp(x) == [has |-> [i \in Slots |-> x[i].has], v |-> [i \in Slots |-> IF x[i].has THEN x[i].v ELSE Absent], orElse |-> [i \in Slots |-> IF x[i].has THEN x[i].v ELSE 1],
             same |-> (x[1] = x[2]), one |-> [i \in Slots |-> x[i] = Some(1)]]
SeeRs(x) == [has |-> [i \in Slots |-> x[i].e = <<>>], v |-> [i \in Slots |-> IF x[i].e = <<>> THEN x[i].v ELSE Absent], e |-> [i \in Slots |-> x[i].e]]
(* no index comes after all indices *)
Before(a, b) == a.has /\ (~b.has \/ a.v < b.v)
SeeIx(x) == [has |-> [i \in Slots |-> x[i].has], v |-> [i \in Slots |-> IF x[i].has THEN x[i].v ELSE Absent], lt |-> Before(x[1], x[2]), gt |-> Before(x[2], x[1]), eq |-> (x[1] = x[2])]
SeeBo(b) == [l |-> b[1], u |-> b[2], len |-> b[2] - b[1], mid |-> IF (b[1] + b[2]) % 2 = 0 THEN Div(b[1] + b[2], 2) ELSE -999, neg |-> <<-b[2], -b[1]>>, null |-> (b = <<0, 0>>)]
SeePc(f) == [n |-> Len(f), p |-> f, v |-> IF f = <<>> THEN <<>> ELSE [k \in DOMAIN Places |-> ConstAt(f, Places[k])]]
SeePl(f) == [n |-> Len(f), p |-> f, v |-> IF Len(f) < 2 THEN <<>> ELSE [k \in DOMAIN Places |-> LinAt(f, Places[k])]]
IxMax(k) == IF k = "u8" THEN 254 ELSE 2000000000
IxOf(k, v) == IF v < 0 \/ v > IxMax(k) THEN Missing ELSE Some(v)
SentinelOK(k, v) == IF v = Absent /\ k \in {"int", "double"} THEN Missing ELSE Some(v)

(* new state and result of a call on an object x *)
Ap(s, o) ==
  CASE o.op = "cv" -> IF o.t = s.cv.t THEN R(s, OkV([v |-> s.cv.v, called |-> FALSE])) ELSE IF o.n = Absent THEN R(s, Fail)
                      ELSE R([s EXCEPT !.cv = [t |-> o.t, v |-> o.n]], OkV([v |-> o.n, called |-> TRUE]))
    [] o.op = "cv_new" -> R([s EXCEPT !.cv = [t |-> o.t, v |-> o.n]], Ok)
    [] o.op = "dl_new" -> R([s EXCEPT !.dl = o.v], Ok)
    [] o.op = "dl" -> R([s EXCEPT !.dl = o.v], OkV(o.v - s.dl))
    [] o.op = "av_add" -> LET a == [tv |-> s.av.tv + o.v * o.w, tw |-> s.av.tw + o.w] IN R([s EXCEPT !.av = a], OkV(SeeAv(a)))
    [] o.op = "av_reset" -> LET a == [tv |-> 0, tw |-> 0] IN R([s EXCEPT !.av = a], OkV(SeeAv(a)))
    [] o.op \in {"op_new", "op_reset"} -> LET x == [s.op[o.k] EXCEPT ![o.i] = Missing] IN R([s EXCEPT !.op[o.k] = x], OkV(SeeOp(x)))
    [] o.op \in {"op_make", "op_set"} -> LET x == [s.op[o.k] EXCEPT ![o.i] = SentinelOK(o.k, o.v)] IN R([s EXCEPT !.op[o.k] = x], OkV(SeeOp(x)))
    [] o.op \in {"op_copy", "op_assign"} -> LET x == [s.op[o.k] EXCEPT ![o.i] = s.op[o.k][3 - o.i]] IN R([s EXCEPT !.op[o.k] = x], OkV(SeeOp(x)))
    [] o.op = "op_value" -> R(s, IF s.op[o.k][o.i].has THEN OkV(s.op[o.k][o.i].v) ELSE Fail)
    [] o.op = "op_edit" -> IF ~s.op[o.k][o.i].has THEN R(s, Fail) ELSE LET x == [s.op[o.k] EXCEPT ![o.i].v = o.v] IN R([s EXCEPT !.op[o.k] = x], OkV(SeeOp(x)))
    [] o.op = "rs_new" -> LET x == [s.rs EXCEPT ![o.i] = [e |-> <<>>, v |-> 0]] IN R([s EXCEPT !.rs = x], OkV(SeeRs(x)))
    [] o.op \in {"rs_make", "rs_set"} -> LET x == [s.rs EXCEPT ![o.i] = [e |-> <<>>, v |-> o.v]] IN R([s EXCEPT !.rs = x], OkV(SeeRs(x)))
    [] o.op \in {"rs_err", "rs_seterr"} -> LET x == [s.rs EXCEPT ![o.i] = [e |-> o.e, v |-> Absent]] IN R([s EXCEPT !.rs = x], OkV(SeeRs(x)))
    [] o.op \in {"rs_copy", "rs_assign"} -> LET x == [s.rs EXCEPT ![o.i] = s.rs[3 - o.i]] IN R([s EXCEPT !.rs = x], OkV(SeeRs(x)))
    [] o.op = "em_set" -> R([s EXCEPT !.em = o.e], OkV([good |-> o.e = <<>>, e |-> o.e]))
    [] o.op = "em_append" -> LET e == IF s.em = <<>> THEN o.e ELSE s.em \o <<10>> \o o.e IN R([s EXCEPT !.em = e], OkV([good |-> e = <<>>, e |-> e]))
    [] o.op = "ix_new" -> LET x == [s.ix[o.k] EXCEPT ![o.i] = IF o.f = "none" THEN Missing ELSE IxOf(o.k, o.v)] IN R([s EXCEPT !.ix[o.k] = x], OkV(SeeIx(x)))
    [] o.op \in {"ix_copy", "ix_assign"} -> LET x == [s.ix[o.k] EXCEPT ![o.i] = s.ix[o.k][3 - o.i]] IN R([s EXCEPT !.ix[o.k] = x], OkV(SeeIx(x)))
    [] o.op \in {"ix_move", "ix_move_assign"} -> LET x == [j \in Slots |-> IF j = o.i THEN s.ix[o.k][3 - o.i] ELSE Missing] IN R([s EXCEPT !.ix[o.k] = x], OkV(SeeIx(x)))
    [] o.op = "ix_inc" -> LET x == [s.ix[o.k] EXCEPT ![o.i] = IxOf(o.k, s.ix[o.k][o.i].v + 1)] IN R([s EXCEPT !.ix[o.k] = x], OkV(SeeIx(x)))
    [] o.op = "ix_add" -> LET x == [s.ix[o.k] EXCEPT ![o.i] = IxOf(o.k, s.ix[o.k][3 - o.i].v + o.v)] IN R([s EXCEPT !.ix[o.k] = x], OkV(SeeIx(x)))
    [] o.op = "ix_span" -> LET x == s.ix[o.k] IN R(s, OkV([v |-> Visit(x[1].v, x[2].v, 1), n |-> x[2].v - x[1].v, empty |-> x[1].v = x[2].v]))
    [] o.op \in {"bd_new", "bd_set", "bd_assign"} -> IF o.v < -2 \/ o.v > 3 THEN R(s, [ok |-> FALSE, v |-> s.bd]) ELSE R([s EXCEPT !.bd = o.v], OkV(o.v))
    [] o.op = "bo_new" -> R([s EXCEPT !.bo = <<o.l, o.u>>], OkV(SeeBo(<<o.l, o.u>>)))
    [] o.op = "bo_extend" -> LET b == <<Min2(s.bo[1], o.l), Max2(s.bo[2], o.u)>> IN R([s EXCEPT !.bo = b], OkV(SeeBo(b)))
    [] o.op = "bo_q" -> LET l == s.bo[1] u == s.bo[2] v == o.v IN R(s, OkV([within |-> l <= v /\ v <= u, off |-> IF v < l THEN v - l ELSE IF v > u THEN v - u ELSE 0, clamp |-> Clamp(v, l, u)]))
    [] o.op = "bo_text" -> R(s, OkV(s.bo))
    [] o.op = "pc_put" -> LET f == Put(s.pc, o.x, o.y) IN R([s EXCEPT !.pc = f], OkV(SeePc(f)))
    [] o.op = "pl_put" -> LET f == Put(s.pl, o.x, o.y) IN R([s EXCEPT !.pl = f], OkV(SeePl(f)))
    [] o.op = "rp" -> R(s, OkV([k \in 1..20 |-> RegAt(o.f, o.l, o.s, 4 * o.l + k - 4)]))
    [] o.op = "dy_new" -> LET d == DelayNew(o.n, o.w, o.v, o.smooth) IN R([s EXCEPT !.dy = d], OkV(Delayed(d)))
    [] o.op = "dy" -> LET d == DelayAdd(s.dy, o.v, o.dt) IN R([s EXCEPT !.dy = d], OkV(Delayed(d)))
    [] o.op = "ir" -> R(s, OkV(Visit(o.b, o.e, o.s)))
    [] o.op = "fr" -> R(s, OkV(FloatRange(o.l, o.u, o.n)))
    [] o.op = "fi" -> R(s, OkV(FloatRange(o.l, o.u, Round(4 * (o.u - o.l), o.inc) + 1)))
    [] o.op = "vi" -> R(s, OkV(SelectSeq(o.xs, LAMBDA x : x \in ToSet(o.keep))))
    [] o.op = "zp" -> LET n == Len(o.xs) IN R(s, OkV([p |-> [i \in 1..n |-> <<o.xs[i], o.ys[i]>>], xs |-> [i \in 1..n |-> o.xs[i] + o.ys[i]]]))

----------------------------------------------------------------------------
VARIABLES st, hist, tail
vars == <<st, hist, tail>>
(* tail: what the delay line was given, newest first, one entry per tick *)
Init == st = InitSt /\ hist = <<>> /\ tail = <<>>
Do(o) == LET r == Ap(st, o) IN
  /\ Len(hist) < MaxLen
  /\ st' = r.st /\ hist' = Append(hist, o @@ [ret |-> r.ret])
  /\ tail' = IF o.op = "dy_new" THEN <<>> ELSE IF o.op = "dy" THEN SubSeq(<<o.v>> \o tail, 1, Min2(Len(tail) + 1, (st.dy.n - 1) * st.dy.w + 1)) ELSE tail
V == (-MaxV)..MaxV
Texts == {<<97>>, <<98, 99>>}
Seqs(X, n) == UNION {[1..m -> X] : m \in 0..n}
P(x) == Part = x
(* one kind of object at a time *)
One(k) == IF hist = <<>> THEN TRUE ELSE hist[1].k = k
Next ==
  \/ P("cv") /\ \/ \E t \in 0..MaxN, n \in 0..MaxV \cup {Absent} : Do([op |-> "cv", t |-> t, n |-> n])
                \/ \E t \in 0..MaxN, n \in 0..MaxV : Do([op |-> "cv_new", t |-> t, n |-> n])
  \/ P("dl") /\ \E v \in V, f \in {"dl", "dl_new"} : Do([op |-> f, v |-> v])
  \/ P("av") /\ \/ \E v \in V, w \in 0..2 : st.av.tw + w <= MaxN /\ Do([op |-> "av_add", v |-> v, w |-> w])
                \/ Do([op |-> "av_reset"])
  \/ P("op") /\ \E k \in DOMAIN st.op, i \in Slots : One(k) /\
                \/ (\E f \in {"op_new", "op_reset", "op_copy", "op_assign", "op_value"} : Do([op |-> f, k |-> k, i |-> i]))
                \/ \E f \in {"op_make", "op_set"}, v \in (IF k = "bool" THEN 0..1 ELSE IF k = "string" THEN 0..MaxV ELSE V \cup {Absent}) : Do([op |-> f, k |-> k, i |-> i, v |-> v])
                \/ \E v \in (IF k = "bool" THEN 0..1 ELSE 0..MaxV) : Do([op |-> "op_edit", k |-> k, i |-> i, v |-> v])
  \/ P("rs") /\ \/ \E i \in Slots : \/ \E f \in {"rs_new", "rs_copy", "rs_assign"} : Do([op |-> f, i |-> i])
                                    \/ \E f \in {"rs_make", "rs_set"}, v \in V : Do([op |-> f, i |-> i, v |-> v])
                                    \/ \E f \in {"rs_err", "rs_seterr"}, e \in Texts : Do([op |-> f, i |-> i, e |-> e])
                \/ \E e \in Texts \cup {<<>>} : Do([op |-> "em_set", e |-> e])
                \/ \E e \in Texts : Len(st.em) < 8 /\ Do([op |-> "em_append", e |-> e])
  \/ P("ix") /\ \E k \in DOMAIN st.ix : One(k) /\ LET x == st.ix[k] IN
                \/ \E i \in Slots, f \in {"int", "size", "raw", "none"}, v \in {0, 1, 2, 253, 254, 255, 256} \cup (IF Rich THEN {65535, 65536, 2000000000} ELSE {}) :
                     (f = "raw" => v <= 254) /\ (f = "none" => v = 0) /\ Do([op |-> "ix_new", k |-> k, i |-> i, f |-> f, v |-> v])
                \/ \E i \in Slots : Do([op |-> "ix_new", k |-> k, i |-> i, f |-> "int", v |-> -1])
                \/ \E i \in Slots, f \in {"ix_copy", "ix_assign", "ix_move", "ix_move_assign"} : Do([op |-> f, k |-> k, i |-> i])
                \/ \E i \in Slots, post \in BOOLEAN : x[i].has /\ x[i].v < 300 /\ Do([op |-> "ix_inc", k |-> k, i |-> i, post |-> post])
                \/ \E i \in Slots, v \in {0, 1, 2, -1, -2} : x[3 - i].has /\ x[3 - i].v + v >= 0 /\ x[3 - i].v < 300 /\ Do([op |-> "ix_add", k |-> k, i |-> i, v |-> v])
                \/ x[1].has /\ x[2].has /\ x[1].v <= x[2].v /\ x[2].v <= x[1].v + 300 /\ Do([op |-> "ix_span", k |-> k])
  \/ P("bd") /\ \E f \in {"bd_new", "bd_set", "bd_assign"}, v \in V : Do([op |-> f, v |-> v])
  \/ P("bo") /\ \/ \E l, u \in V : l <= u /\ Do([op |-> "bo_new", l |-> l, u |-> u])
                \/ \E l, u \in V : l <= u /\ Do([op |-> "bo_extend", l |-> l, u |-> u])
                \/ \E v \in V : Do([op |-> "bo_q", v |-> v])
                \/ \E f \in {"str", "pair", "names", "other", "swapped"} : Do([op |-> "bo_text", f |-> f])
  \/ P("pc") /\ \E x \in 0..MaxN, y \in V, f \in {"pc_put", "pl_put"} : (IF hist = <<>> THEN TRUE ELSE hist[1].op = f) /\ Do([op |-> f, x |-> x, y |-> y])
  \/ P("rp") /\ \E f \in [1..4 -> V], l \in {-2, 0, 1}, s \in {1, 2} : Do([op |-> "rp", f |-> f, l |-> l, s |-> s])
  \/ P("dy") /\ \/ hist = <<>> /\ \E n \in {2, 3, 5}, w \in {1, 2, 4}, v \in {0, 3}, b \in BOOLEAN : Do([op |-> "dy_new", n |-> n, w |-> w, v |-> v, smooth |-> b])
                \/ hist # <<>> /\ \E v \in {0, MaxV} : Do([op |-> "dy", v |-> v, dt |-> 1])
  \/ P("range") /\ \/ \E b, e \in V, s \in {-3, -2, -1, 1, 2, 3} : Do([op |-> "ir", b |-> b, e |-> e, s |-> s])
                   \/ \E l, u \in V, n \in 1..8 : Do([op |-> "fr", l |-> l, u |-> u, n |-> n])
                   \/ \E l, u \in V, inc \in {1, 2, 3, 4, 6, 8, 12} : l <= u /\ (4 * (u - l) + 2 * inc) \div inc <= 9 /\ Do([op |-> "fi", l |-> l, u |-> u, inc |-> inc])
  \/ P("view") /\ \/ \E xs \in Seqs(0..2, MaxN), k \in SUBSET (0..2) : Do([op |-> "vi", xs |-> xs, keep |-> SetToSeq(k)])
                  \/ \E xs \in Seqs({1, 2}, 3), zs \in Seqs({3}, 2) : Do([op |-> "zp", xs |-> xs, ys |-> [i \in 1..Len(xs) |-> 10 * i] \o zs])
Spec == Init /\ [][Next]_vars
See == <<st, tail, IF hist # <<>> /\ Part \in {"op", "ix"} THEN hist[1].k ELSE IF hist # <<>> /\ P("pc") THEN hist[1].op ELSE "", P("dy") /\ hist = <<>>>>

----------------------------------------------------------------------------
(* what the specification itself has to satisfy *)
(* after a whole number of windows the delayed value is the one that was given one delay ago *)
InvDelay == (P("dy") /\ hist # <<>> /\ ~st.dy.smooth /\ st.dy.t = 0 /\ Len(tail) = (st.dy.n - 1) * st.dy.w + 1) => Delayed(st.dy) = st.dy.w * tail[Len(tail)]
(* points are sorted, and the functions go through them *)
InvPoints == \A f \in {st.pc, st.pl} : (\A i \in 1..(Len(f) - 1) : f[i][1] < f[i + 1][1])
InvPc == \A i \in DOMAIN st.pc : ConstAt(st.pc, 2 * st.pc[i][1]) = st.pc[i][2]
InvPl == Len(st.pl) > 1 => \A i \in DOMAIN st.pl : LinAt(st.pl, 2 * st.pl[i][1]) = Q * st.pl[i][2]
InvBounds == st.bo[1] <= st.bo[2] /\ st.bd \in -2..3
(* no range visits more than it spans, all in one direction *)
InvRange == \A b, e \in -4..4, s \in {-2, -1, 1, 2} : LET v == Visit(b, e, s) IN \A i \in DOMAIN v : v[i] = b + (i - 1) * s /\ (s > 0 => v[i] < e) /\ (s < 0 => v[i] > e)
EmitEdge == EmitB(hist, hist'[Len(hist')])
=============================================================================
