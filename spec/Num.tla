--------------------------------- MODULE Num --------------------------------
(* The numerical functions in exact arithmetic: every number is a fraction <<n, d>> in lowest      *)
(* terms, arguments are whole numbers of quarters.  Two filters have a memory, the rest has none.  *)
EXTENDS Conf
CONSTANTS Part, MaxLen, M, Rich

----------------------------------------------------------------------------
(* fractions *)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Q(n, d) == LET m == IF d < 0 THEN -n ELSE n e == Abs(d) g == Gcd(Abs(m), e) IN <<IF m < 0 THEN -((-m) \div g) ELSE m \div g, e \div g>>
I(n) == <<n, 1>>
Qd(n) == Q(n, 4)
Neg(a) == <<-a[1], a[2]>>
Plus(a, b) == LET g == Gcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
Minus(a, b) == Plus(a, Neg(b))
(* divided crosswise first: products stay small *)
Times(a, b) == LET g == Gcd(Abs(a[1]), b[2]) h == Gcd(Abs(b[1]), a[2])
                   D(n, k) == IF n < 0 THEN -((-n) \div k) ELSE n \div k IN
               IF a[1] = 0 \/ b[1] = 0 THEN I(0) ELSE <<D(a[1], g) * D(b[1], h), (a[2] \div h) * (b[2] \div g)>>
Over(a, b) == Times(a, IF b[1] < 0 THEN <<-b[2], -b[1]>> ELSE <<b[2], b[1]>>)
Lt(a, b) == Minus(a, b)[1] < 0
Le(a, b) == Minus(a, b)[1] <= 0
Least(a, b) == IF Lt(b, a) THEN b ELSE a
Most(a, b) == IF Lt(a, b) THEN b ELSE a
AbsQ(a) == <<Abs(a[1]), a[2]>>
Floor(a) == I(a[1] \div a[2])
Mod(a, m) == Minus(a, Times(m, Floor(Over(a, m))))
(* half away from zero *)
Round(a) == IF a[1] < 0 THEN Neg(Floor(Plus(Neg(a), Q(1, 2)))) ELSE Floor(Plus(a, Q(1, 2)))
Pow(a, n) == IF n = 0 THEN I(1) ELSE IF n = 1 THEN a ELSE IF n = 2 THEN Times(a, a) ELSE IF n = 3 THEN Times(a, Times(a, a)) ELSE Times(Times(a, a), Times(a, a))
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN I(0) ELSE Plus(s[1], Total(Tail(s)))
Half == Q(1, 2)
Sgn(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
Each(s) == [i \in DOMAIN s |-> I(s[i])]

----------------------------------------------------------------------------
(* single numbers *)
Scalar(x, y, z) ==
  LET a == Qd(x) b == Qd(y) c == Qd(z) lo == Least(b, c) hi == Most(b, c) IN
  [min |-> Least(a, b), min3 |-> Least(a, Least(b, c)), max |-> Most(a, b), max3 |-> Most(a, Most(b, c)), abs |-> AbsQ(a), sq |-> Times(a, a), cube |-> Pow(a, 3),
   mid |-> Over(Plus(a, b), I(2)), sign |-> IF a[1] >= 0 THEN 1 ELSE -1, signum |-> Sgn(a), same |-> Sgn(a) = Sgn(b), whole |-> a[2] = 1,
   clamp |-> Least(Most(a, lo), hi), between |-> Le(lo, a) /\ Le(a, hi), round |-> Round(a), smaller |-> Least(a, b), bigger |-> Most(a, b), set |-> <<b, a # b>>,
   pow |-> <<I(1), a, Times(a, a), Pow(a, 3), Pow(a, 4)>>, inv |-> IF a[1] = 0 THEN <<>> ELSE <<Over(I(1), a), Over(I(1), Times(a, a)), Over(I(1), Pow(a, 3))>>,
   root |-> Times(I(IF a[1] >= 0 THEN 1 ELSE -1), AbsQ(a)), even |-> x % 2 = 0, odd |-> x % 2 = 1, jerk |-> Plus(Times(I(6), Times(a, Pow(a, 4))), Plus(Times(I(-15), Pow(a, 4)), Times(I(10), Pow(a, 3))))]
RECURSIVE Len10(_, _)
Len10(v, b) == IF v < b THEN 1 ELSE 1 + Len10(v \div b, b)
RECURSIVE Pow2(_)
Pow2(v) == v = 1 \/ (v > 1 /\ v % 2 = 0 /\ Pow2(v \div 2))
Bits(v, b, p, q) == [digits |-> Len10(v, b), pow2 |-> Pow2(v), gcd |-> Gcd(p, q), byte |-> <<v % 256, (v \div 256) % 256, (v \div 65536) % 256>>]
(* periodic functions *)
Wave(v, l, u) ==
  LET a == Qd(v) lo == Qd(l) hi == Qd(u) w == Minus(hi, lo)
      Tri(x) == LET m == Mod(x, I(2)) IN IF Le(m, I(1)) THEN m ELSE Minus(I(2), m) IN
  [wrap |-> Plus(lo, Mod(Minus(a, lo), w)), mod |-> Mod(a, w), square |-> IF Lt(Mod(a, I(2)), I(1)) THEN 1 ELSE 0, tri |-> Tri(a),
   tri3 |-> Plus(lo, Times(w, Tri(Over(Minus(a, lo), w))))]
(* clamping with a smooth transition over a part k/8 of the range on both sides *)
Soft(v, l, u, k) ==
  LET a == Qd(v) lo == Qd(l) hi == Qd(u) r == Times(Q(k, 8), Minus(hi, lo)) Lim(x) == Over(Times(x, r), Plus(x, r)) IN
  [soft |-> IF Lt(Minus(hi, r), a) THEN Plus(Minus(hi, r), Lim(Plus(Minus(a, hi), r))) ELSE IF Lt(a, Plus(lo, r)) THEN Minus(Plus(lo, r), Lim(Minus(Plus(lo, r), a))) ELSE a,
   smooth |-> IF Le(Plus(lo, r), a) /\ Le(a, Minus(hi, r)) THEN a ELSE I(0), inside |-> TRUE]
Rounded(v, n) == LET f == I(IF n = 0 THEN 1 ELSE IF n = 1 THEN 10 ELSE 100) IN Over(Round(Times(Q(v, 8), f)), f)
(* equal up to a part k/8 of the first *)
Cmp(x, y, k) == LET a == Qd(x) b == Qd(y) eq == Le(AbsQ(Minus(a, b)), Times(AbsQ(a), Q(k, 8))) IN
                [eq |-> eq, le |-> Lt(a, b) \/ eq, lt |-> Lt(a, b) /\ ~eq, ge |-> Lt(b, a) \/ eq, gt |-> Lt(b, a) /\ ~eq]
RECURSIVE At(_, _)
At(c, x) == IF c = <<>> THEN I(0) ELSE Plus(I(c[1]), Times(x, At(Tail(c), x)))
Poly(c, v) == LET x == Qd(v) IN [at |-> At(c, x), offset |-> I(c[1]), slope |-> I(c[2]), cross |-> IF Len(c) = 2 /\ c[2] # 0 THEN Over(Minus(x, I(c[1])), I(c[2])) ELSE I(0)]
(* f at n evenly spaced points of [lo, hi] *)
Eval(c, l, u, n) == [i \in 1..n |-> At(c, IF n = 1 THEN Qd(l) ELSE Plus(Qd(l), Over(Times(I(i - 1), Minus(Qd(u), Qd(l))), I(n - 1))))]

----------------------------------------------------------------------------
(* interpolation *)
Lerp(a, b, t) == Plus(a, Times(t, Minus(b, a)))
(* points <<position, value>> in order of position *)
LerpMap(p, k) == LET x == Qd(k) IN
  IF Le(x, I(p[1][1])) THEN I(p[1][2]) ELSE IF Le(I(p[Len(p)][1]), x) THEN I(p[Len(p)][2])
  ELSE LET i == CHOOSE i \in 1..(Len(p) - 1) : Le(I(p[i][1]), x) /\ Lt(x, I(p[i + 1][1])) IN
       Lerp(I(p[i][2]), I(p[i + 1][2]), Over(Minus(x, I(p[i][1])), I(p[i + 1][1] - p[i][1])))
LerpVec(v, k) == LerpMap([i \in DOMAIN v |-> <<i - 1, v[i]>>], k)
(* a uniform Catmull-Rom segment, by the conditions that define it: p1 at 0, p2 at 1, with half the distance of the neighbours as slope *)
Catmull(p, t) ==
  LET m1 == Over(Minus(p[3], p[1]), I(2)) m2 == Over(Minus(p[4], p[2]), I(2)) t2 == Times(t, t) t3 == Times(t, t2) IN
  Total(<<Times(Plus(Minus(Times(I(2), t3), Times(I(3), t2)), I(1)), p[2]), Times(Plus(Minus(t3, Times(I(2), t2)), t), m1),
          Times(Plus(Times(I(-2), t3), Times(I(3), t2)), p[3]), Times(Minus(t3, t2), m2)>>)
(* the same with knots at the distances of the points (Barry and Goldman) *)
Chordal(p, t) ==
  LET D(i) == AbsQ(Minus(p[i + 1], p[i])) k2 == D(1) k3 == Plus(k2, D(2)) k4 == Plus(k3, D(3)) k == <<I(0), k2, k3, k4>> x == Lerp(k2, k3, t)
      Mix(a, b, i, j) == Lerp(a, b, Over(Minus(x, k[i]), Minus(k[j], k[i])))
      a1 == Mix(p[1], p[2], 1, 2) a2 == Mix(p[2], p[3], 2, 3) a3 == Mix(p[3], p[4], 3, 4) IN
  Mix(Mix(a1, a2, 1, 3), Mix(a2, a3, 2, 4), 2, 3)
(* a spline through all but the first and the last point *)
Spline(p, times, k) ==
  LET x == Qd(k) n == Len(times)
      i == IF \E i \in 1..n : Le(x, I(times[i])) THEN CHOOSE i \in 1..n : Le(x, I(times[i])) /\ \A j \in 1..(i - 1) : Lt(I(times[j]), x) ELSE n
      s == IF i = 1 THEN 1 ELSE i - 1 IN
  Catmull(Each(SubSeq(p, s, s + 3)), Over(Minus(x, I(times[s])), I(times[s + 1] - times[s])))

----------------------------------------------------------------------------
(* collections of samples *)
Sorted(s) == SortSeq(s, LAMBDA a, b : Lt(a, b))
Avg(s) == Over(Total(s), I(Len(s)))
Dev2(s) == LET m == Avg(s) IN [i \in DOMAIN s |-> Times(Minus(s[i], m), Minus(s[i], m))]
Median(s) == LET o == Sorted(s) n == Len(s) IN IF n % 2 = 1 THEN o[(n + 1) \div 2] ELSE Over(Plus(o[n \div 2], o[n \div 2 + 1]), I(2))
Stats(v, k) ==
  LET s == Each(v) o == Sorted(s) IN
  [sum |-> Total(s), sumsq |-> Total([i \in DOMAIN s |-> Times(s[i], s[i])]), avg |-> Avg(s), avgsq |-> Avg([i \in DOMAIN s |-> Times(s[i], s[i])]), mean |-> Avg(s), var |-> Avg(Dev2(s)), idx |-> o, desc |-> Reverse(o), min |-> o[1], max |-> o[Len(o)],
   minat |-> (CHOOSE i \in DOMAIN s : s[i] = o[1] /\ \A j \in 1..(i - 1) : s[j] # o[1]) - 1, maxat |-> (CHOOSE i \in DOMAIN s : s[i] = o[Len(o)] /\ \A j \in 1..(i - 1) : s[j] # o[Len(o)]) - 1,
   sorted |-> o, median |-> Median(s), top |-> Avg(SubSeq(o, 1, k))]
(* the line of least squares <<offset, slope>> *)
Least2(x, y) ==
  LET mx == Avg(x) my == Avg(y)
      k == Over(Total([i \in DOMAIN x |-> Times(Minus(x[i], mx), Minus(y[i], my))]), Total(Dev2(x))) IN <<Minus(my, Times(k, mx)), k>>
(* Siegel: the median over all points of the median slope to the other points *)
Siegel(x, y) ==
  LET n == Len(x) Others(i) == [j \in 1..(n - 1) |-> IF j < i THEN j ELSE j + 1]
      S(i) == Median([j \in 1..(n - 1) |-> Over(Minus(y[Others(i)[j]], y[i]), Minus(x[Others(i)[j]], x[i]))])
      k == Median([i \in 1..n |-> S(i)]) IN <<Median([i \in 1..n |-> Minus(y[i], Times(k, x[i]))]), k>>
Steps(n, x0, d) == [i \in 1..n |-> I(x0 + (i - 1) * d)]
Regr(x, y) == [least |-> Least2(Each(x), Each(y)), repeated |-> Siegel(Each(x), Each(y))]
RegrStep(y, x0, d) ==
  LET n == Len(y) s == Each(y) x == Steps(n, x0, d)
      k == Over(Median([i \in 1..(n - 1) |-> Minus(s[i + 1], s[i])]), I(d)) IN
  [least |-> Least2(x, s), median |-> <<Minus(Median(s), Times(k, Avg(x))), k>>]
(* frames of channels *)
Cov(m) ==
  LET Ch(j) == [i \in DOMAIN m |-> I(m[i][j])] n == Len(m[1]) mean == [j \in 1..n |-> Avg(Ch(j))] IN
  [means |-> mean, cov |-> [j \in 1..n |-> [k \in 1..n |-> Avg([i \in DOMAIN m |-> Times(Minus(I(m[i][j]), mean[j]), Minus(I(m[i][k]), mean[k]))])]]]

----------------------------------------------------------------------------
(* distances *)
VSub(a, b) == [i \in 1..3 |-> a[i] - b[i]]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
SegDist2(p, a, b) ==
  LET v == VSub(b, a) w == VSub(p, a) c1 == Dot(w, v) c2 == Dot(v, v) IN
  IF c1 <= 0 THEN I(Dot(w, w)) ELSE IF c2 <= c1 THEN I(Dot(VSub(p, b), VSub(p, b))) ELSE Minus(I(Dot(w, w)), Q(c1 * c1, c2))
(* the closest points <<on the first, on the second>> of two lines that are not parallel: their difference is perpendicular to both *)
Closest(p, d, q, e) ==
  LET w == VSub(p, q) a == Dot(d, d) b == Dot(d, e) c == Dot(e, e) f == Dot(d, w) g == Dot(e, w) n == a * c - b * b
      s == Q(b * g - c * f, n) t == Q(a * g - b * f, n) IN
  <<[i \in 1..3 |-> Plus(I(p[i]), Times(s, I(d[i])))], [i \in 1..3 |-> Plus(I(q[i]), Times(t, I(e[i])))]>>
Lines(p, d, q, e) ==
  LET w == VSub(p, q) n == Dot(d, d) * Dot(e, e) - Dot(d, e) * Dot(d, e) c == Closest(p, d, q, e)
      Len2(u) == Total([i \in 1..3 |-> Times(u[i], u[i])]) IN
  IF n = 0 THEN [points |-> <<>>, dist2 |-> Minus(I(Dot(w, w)), Q(Dot(w, d) * Dot(w, d), Dot(d, d)))]
  ELSE [points |-> c, dist2 |-> Len2([i \in 1..3 |-> Minus(c[1][i], c[2][i])])]
(* a path of steps <<axis, amount>> from the origin *)
RECURSIVE Walked(_, _)
Walked(s, at) == IF s = <<>> THEN <<at>> ELSE <<at>> \o Walked(Tail(s), [at EXCEPT ![s[1][1]] = @ + s[1][2]])
RECURSIVE Insert(_, _, _, _)
(* a point at distance x along the path: <<its index, the path with it>> *)
Insert(p, s, i, x) ==
  IF s = <<>> THEN <<Len(p) - 1, p>>
  ELSE LET l == I(Abs(s[1][2])) IN
       IF x = l THEN <<i, p>>
       ELSE IF Lt(x, l) THEN <<i, [j \in 1..(Len(p) + 1) |-> IF j <= i THEN p[j] ELSE IF j > i + 1 THEN p[j - 1]
                                     ELSE [p[i] EXCEPT ![s[1][1]] = Plus(@, Times(x, I(Sgn(I(s[1][2])))))]]>>
       ELSE Insert(p, Tail(s), i + 1, Minus(x, l))
Path(s, k) ==
  LET w == Walked(s, <<0, 0, 0>>) p == [i \in DOMAIN w |-> Each(w[i])] r == IF k <= 0 THEN <<0, p>> ELSE Insert(p, s, 1, Qd(k)) IN
  [length |-> Total([i \in DOMAIN s |-> I(Abs(s[i][2]))]), at |-> r[1], path |-> r[2]]

(* the angle in degrees with cosine k / 2; bounds without a lower or upper limit; a way along points; *)
(* a table of f(x) = x + b x^2 for x from lo / 4 in n steps of 1 / d                                  *)
Acos(k) == <<180, 120, 90, 60, 0>>[k + 3]
Span(v) == [all |-> TRUE, pos |-> v >= 0, neg |-> v <= 0]
Arc(v) == Total([i \in 1..(Len(v) - 1) |-> I(Abs(v[i + 1] - v[i]))])
Table(lo, n, d, b) == LET X(i) == Plus(Qd(lo), Q(i - 1, d)) Y(x) == Plus(x, Times(I(b), Times(x, x))) IN
                      [rows |-> n + 1, first |-> [i \in 1..(IF n < 2 THEN n + 1 ELSE 3) |-> <<X(i), Y(X(i))>>], last |-> X(n + 1)]

----------------------------------------------------------------------------
(* filters: f moves towards its input, r remembers its last two inputs and outputs *)
InitSt == [f |-> [v |-> I(0), rate |-> 1], r |-> [c |-> <<1, 0, 0, 0, 0>>, x |-> <<I(0), I(0)>>, y |-> <<I(0), I(0)>>]]
Fst(s) == OkV([v |-> s.f.v, rate |-> Qd(s.f.rate)])
Ap(s, o) ==
  CASE o.op = "scalar" -> R(s, OkV(Scalar(o.a, o.b, o.c)))
    [] o.op = "bits" -> R(s, OkV(Bits(o.v, o.b, o.p, o.q)))
    [] o.op = "wave" -> R(s, OkV(Wave(o.v, o.l, o.u)))
    [] o.op = "soft" -> R(s, OkV(Soft(o.v, o.l, o.u, o.k)))
    [] o.op = "rounded" -> R(s, OkV(Rounded(o.v, o.n)))
    [] o.op = "tobyte" -> R(s, OkV(Round(Times(Least(Most(Q(o.v, 8), I(0)), I(1)), I(255)))))
    [] o.op = "cmp" -> R(s, OkV(Cmp(o.a, o.b, o.k)))
    [] o.op = "poly" -> R(s, OkV(Poly(o.c, o.x)))
    [] o.op = "eval" -> R(s, OkV(Eval(o.c, o.l, o.u, o.n)))
    [] o.op = "lerp" -> R(s, OkV(Lerp(Qd(o.a), Qd(o.b), Qd(o.t))))
    [] o.op = "lerpmap" -> R(s, OkV(LerpMap(o.p, o.k)))
    [] o.op = "lerpvec" -> R(s, OkV(LerpVec(o.v, o.k)))
    [] o.op = "catmull" -> R(s, OkV([uniform |-> Catmull(Each(o.p), Qd(o.t)), chordal |-> IF o.t % 2 = 1 \/ \E i \in 1..3 : o.p[i] = o.p[i + 1] THEN I(0) ELSE Chordal(Each(o.p), Qd(o.t))]))
    [] o.op = "spline" -> R(s, OkV(Spline(o.p, o.times, o.k)))
    [] o.op = "stats" -> R(s, OkV(Stats(o.v, o.k)))
    [] o.op = "regr" -> R(s, OkV(Regr(o.x, o.y)))
    [] o.op = "regrstep" -> R(s, OkV(RegrStep(o.y, o.x0, o.d)))
    [] o.op = "cov" -> R(s, OkV(Cov(o.m)))
    [] o.op = "seg" -> R(s, OkV(SegDist2(o.p, o.a, o.b)))
    [] o.op = "lines" -> R(s, OkV(Lines(o.p, o.d, o.q, o.e)))
    [] o.op = "path" -> R(s, OkV(Path(o.s, o.k)))
    [] o.op = "butter" -> R(s, OkV([dc |-> I(1), half |-> Half, none |-> I(0), stable |-> TRUE]))
    [] o.op = "acos" -> R(s, OkV(Acos(o.k)))
    [] o.op = "span" -> R(s, OkV(Span(o.v)))
    [] o.op = "arc" -> R(s, OkV(Arc(o.v)))
    [] o.op = "table" -> R(s, OkV(Table(o.lo, o.n, o.d, o.b)))
    [] o.op = "rng" -> R(s, OkV(TRUE))
    (* rate in quarters *)
    [] o.op = "f_new" -> LET t == [s EXCEPT !.f = [v |-> I(o.v), rate |-> o.r]] IN R(t, Fst(t))
    [] o.op = "f_set" -> LET t == [s EXCEPT !.f.v = I(o.v)] IN R(t, Fst(t))
    [] o.op = "f_rate" -> LET t == [s EXCEPT !.f.rate = o.r] IN R(t, Fst(t))
    (* dt in quarters: the step of the differential equation; k half lives: its solution *)
    [] o.op = "f_fast" -> LET t == [s EXCEPT !.f.v = Plus(@, Times(Q(o.dt * s.f.rate, 16), Minus(I(o.v), @)))] IN R(t, Fst(t))
    [] o.op = "f_acc" -> LET t == [s EXCEPT !.f.v = Plus(I(o.v), Over(Minus(@, I(o.v)), I(2 ^ o.k)))] IN R(t, Fst(t))
    (* y = c1 x + c2 x' + c3 x'' + c4 y' + c5 y'' *)
    [] o.op = "r_new" -> R([s EXCEPT !.r = [InitSt.r EXCEPT !.c = o.c]], Ok)
    [] o.op = "r_in" -> LET c == s.r.c y == Total(<<Times(Q(c[1], 2), I(o.v)), Times(Q(c[2], 2), s.r.x[1]), Times(Q(c[3], 2), s.r.x[2]), Times(Q(c[4], 2), s.r.y[1]), Times(Q(c[5], 2), s.r.y[2])>>) IN
                        R([s EXCEPT !.r.x = <<I(o.v), @[1]>>, !.r.y = <<y, @[1]>>], OkV([y |-> y, d |-> Minus(y, s.r.y[1])]))

----------------------------------------------------------------------------
VARIABLES st, hist
vars == <<st, hist>>
Init == st = InitSt /\ hist = <<>>
Do(o) == LET r == Ap(st, o) IN Len(hist) < MaxLen /\ st' = r.st /\ hist' = Append(hist, o @@ [ret |-> r.ret])
P(x) == Part = x
UpTo(n, V) == UNION {[1..k -> V] : k \in 1..n}
V3(n) == [1..3 -> (-n)..n]
Dirs == {<<1, 0, 0>>, <<0, 2, 0>>, <<1, 1, 0>>, <<1, -2, 3>>, <<-2, 4, -6>>, <<0, -1, 2>>}
Pts == {<<0, 0, 0>>, <<1, 2, -1>>, <<-3, 0, 2>>}
Next ==
  \/ P("scalar") /\ \E a \in (-2 * M)..(2 * M), b \in {-5, -1, 0, 2, 4}, c \in {-4, 0, 3, 4} : Do([op |-> "scalar", a |-> a, b |-> b, c |-> c])
  \/ P("bits") /\ \/ \E v \in {0, 1, 2, 7, 8, 9, 10, 15, 16, 63, 64, 99, 100, 101, 255, 256, 999, 1000, 65535, 65536, 99999, 100000, 16777216}, b \in {2, 3, 8, 10, 16}, p \in 0..M, q \in {0, 1, 6, 12} : Do([op |-> "bits", v |-> v, b |-> b, p |-> p, q |-> q])
                  \/ \E v \in (-2)..10 : Do([op |-> "tobyte", v |-> v])
                  \/ \E v \in (-20)..20, n \in 0..2 : Do([op |-> "rounded", v |-> v, n |-> n])
                  \/ \E a \in (-5)..5, b \in (-5)..5, k \in {0, 1, 2, 4} : Do([op |-> "cmp", a |-> a, b |-> b, k |-> k])
  \/ P("wave") /\ \/ \E v \in (-6 * M)..(6 * M), l \in {-8, -3, 0, 2}, n \in {1, 4, 6} : Do([op |-> "wave", v |-> v, l |-> l, u |-> l + n])
                  \/ \E v \in (-6 * M)..(6 * M), l \in {-8, 0}, n \in {4, 12}, k \in 1..4 : Do([op |-> "soft", v |-> v, l |-> l, u |-> l + n, k |-> k])
  \/ P("poly") /\ \/ \E n \in 2..4 : \E c \in [1..n -> {-2, 0, 3}], x \in {-8, -4, 0, 1, 2, 6} : Do([op |-> "poly", c |-> c, x |-> x])
                  \/ \E c \in {<<1, 2>>, <<0, -1, 1>>}, l \in {-4, 0, 2}, n \in {1, 4, 6}, k \in 1..M : Do([op |-> "eval", c |-> c, l |-> l, u |-> l + n, n |-> k])
                  \/ \E a \in {-8, 0, 3}, b \in {-8, 0, 5}, t \in (-2)..6 : Do([op |-> "lerp", a |-> a, b |-> b, t |-> t])
  \/ P("lerp") /\ \/ \E n \in 1..3 : \E g \in [1..n -> {1, 2}], v \in [1..n -> {-1, 0, 4}], k \in (-3)..(5 * M) :
                       Do([op |-> "lerpmap", p |-> [i \in 1..n |-> <<(IF i = 1 THEN 0 ELSE g[1]) + (IF i = 3 THEN g[2] ELSE 0) - (g[n] - 1), v[i]>>], k |-> k])
                  \/ \E v \in UpTo(3, {-1, 0, 4}), k \in (-3)..14 : Do([op |-> "lerpvec", v |-> v, k |-> k])
  \/ P("spline") /\ \/ \E p \in [1..4 -> {-1, 0, 2, 5}], t \in {0, 1, 2, 4} : Do([op |-> "catmull", p |-> p, t |-> t])
                    \/ \E p \in [1..4 -> {-1, 2}], q \in UpTo(2, {0, 3}), g \in {<<1, 1, 1>>, <<2, 1, 4>>}, k \in (-2)..(6 * M) :
                         Do([op |-> "spline", p |-> p \o q, times |-> SubSeq(<<-1, g[1] - 1, g[1] + g[2] - 1, g[1] + g[2] + g[3] - 1>>, 1, Len(q) + 2), k |-> k])
  \/ P("stats") /\ \E v \in UpTo(M, {-2, 0, 1, 4}) : \E k \in 1..Len(v) : Do([op |-> "stats", v |-> v, k |-> k])
  \/ P("regr") /\ \/ \E n \in 2..M : \E x \in [1..n -> {-1, 0, 1, 3, 4}], y \in [1..n -> {-2, 0, 3}] : (\A i, j \in 1..n : i # j => x[i] # x[j]) /\ Do([op |-> "regr", x |-> x, y |-> y])
                  \/ \E n \in 2..(M + 1) : \E y \in [1..n -> {-2, 0, 3}], x0 \in {-3, 0, 1}, d \in {1, 2, -1} : Do([op |-> "regrstep", y |-> y, x0 |-> x0, d |-> d])
                  \/ \E r \in 1..M, c \in 1..2 : \E m \in [1..r -> [1..c -> {-1, 0, 2}]] : Do([op |-> "cov", m |-> m])
  \/ P("dist") /\ \/ \E p \in V3(1), a \in Pts, b \in V3(1) \cup {<<4, 4, 2>>} : Do([op |-> "seg", p |-> p, a |-> a, b |-> b])
                  \/ \E p \in Pts, d \in Dirs, q \in V3(1), e \in Dirs : Do([op |-> "lines", p |-> p, d |-> d, q |-> q, e |-> e])
                  \/ \E s \in UpTo(3, {1, 2, 3} \X {-2, 1, 2}), k \in {-1, 0, 1, 2, 4, 6, 8, 11, 12, 16, 20, 30} : Do([op |-> "path", s |-> s, k |-> k])
  \/ P("filter") /\ \/ \E v \in {0, 4}, r \in {1, 4} : hist = <<>> /\ Do([op |-> "f_new", v |-> v, r |-> r])
                    \/ \E v \in {0, 4, -3} : \/ Do([op |-> "f_set", v |-> v]) \/ \E dt \in {1, 4} : Do([op |-> "f_fast", v |-> v, dt |-> dt]) \/ \E k \in 0..2 : Do([op |-> "f_acc", v |-> v, k |-> k])
                    \/ \E r \in {2, 4} : Do([op |-> "f_rate", r |-> r])
  \/ P("iir") /\ \/ \E c \in [1..5 -> {0, 1, -3}] : hist = <<>> /\ Do([op |-> "r_new", c |-> c])
                 \/ \E v \in {0, 4, -1} : hist # <<>> /\ Do([op |-> "r_in", v |-> v])
  \/ P("odd") /\ \/ \E k \in 1..9 : Do([op |-> "butter", k |-> k])
                 \/ \E k \in -2..2 : Do([op |-> "acos", k |-> k])
                 \/ \E v \in {-99, -1, 0, 1, 99} : Do([op |-> "span", v |-> v])
                 \/ \E v \in UpTo(4, {-1, 0, 3}) : Len(v) > 1 /\ Do([op |-> "arc", v |-> v])
                 \/ \E lo \in {-4, 0, 3}, n \in {0, 1, 2, 5, 100, 1000}, d \in {4, 10, 100}, b \in {0, -2} : (b = 0 \/ d = 4) /\ Do([op |-> "table", lo |-> lo, n |-> n, d |-> d, b |-> b])
                 \/ \E seed \in {0, 1, 123, 99999}, l \in {-3, 0, 2}, n \in {1, 2, 100} : Do([op |-> "rng", seed |-> seed, l |-> l, u |-> l + n])
Spec == Init /\ [][Next]_vars
Shown == <<st, IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]>>
View == IF P("filter") \/ P("iir") THEN <<st, hist = <<>>, Len(hist)>> ELSE Shown

----------------------------------------------------------------------------
(* the property *)
Lst == IF hist = <<>> THEN [op |-> "none"] ELSE hist[Len(hist)]
V == Lst.ret.v
InvWave == Lst.op = "wave" => LET lo == Qd(Lst.l) hi == Qd(Lst.u) w == Minus(hi, lo) IN
             /\ Le(lo, V.wrap) /\ Lt(V.wrap, hi) /\ Over(Minus(V.wrap, Qd(Lst.v)), w)[2] = 1 /\ Le(I(0), V.mod) /\ Lt(V.mod, w)
             /\ Le(lo, V.tri3) /\ Le(V.tri3, hi)
InvSoft == Lst.op = "soft" => Le(Qd(Lst.l), V.soft) /\ Le(V.soft, Qd(Lst.u))
(* what is left of the samples has nothing to do with the line any more *)
Residual(l, x, y) == [i \in DOMAIN x |-> Minus(y[i], Plus(l[1], Times(l[2], x[i])))]
Normal(l, x, y) == LET r == Residual(l, x, y) IN Total(r) = I(0) /\ Total([i \in DOMAIN x |-> Times(x[i], r[i])]) = I(0)
InvRegr == (Lst.op = "regr" => Normal(V.least, Each(Lst.x), Each(Lst.y))) /\ (Lst.op = "regrstep" => Normal(V.least, Steps(Len(Lst.y), Lst.x0, Lst.d), Each(Lst.y)))
InvMedian == Lst.op = "stats" => LET s == Each(Lst.v) Cnt(Q1(_)) == Cardinality({i \in DOMAIN s : Q1(s[i])}) IN
               2 * Cnt(LAMBDA x : Lt(x, V.median)) <= Len(s) /\ 2 * Cnt(LAMBDA x : Lt(V.median, x)) <= Len(s)
InvSpline == Lst.op = "catmull" => (Lst.t = 0 => V.uniform = I(Lst.p[2])) /\ (Lst.t = 4 => V.uniform = I(Lst.p[3]))
InvLines == Lst.op = "lines" /\ V.points # <<>> => LET c == V.points w == [i \in 1..3 |-> Minus(c[1][i], c[2][i])] D(u) == Total([i \in 1..3 |-> Times(w[i], I(u[i]))]) IN D(Lst.d) = I(0) /\ D(Lst.e) = I(0)
InvPath == Lst.op = "path" => \A i \in 1..3 : V.path[Len(V.path)][i] = I(Walked(Lst.s, <<0, 0, 0>>)[Len(Lst.s) + 1][i])
EmitEdge == EmitB(hist, hist'[Len(hist')])
=============================================================================
