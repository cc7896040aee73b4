------------------------------- MODULE Shapes -------------------------------
(* Shapes and colours.  A shape is [k |-> kind, r |-> radius, h |-> height, d |-> dimensions or normal], *)
(* in whole numbers; volumes and inertias are given times 3 and 60, and divided by pi where the shape    *)
(* is round.  Colours are in whole numbers of 255ths, or of a fraction that the call names.              *)
EXTENDS Conf
CONSTANTS Part, MaxLen, M

----------------------------------------------------------------------------
Add(a, b) == IF Len(a) = 3 THEN <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>> ELSE <<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4]>>
Sc(s, a) == IF Len(a) = 3 THEN <<s * a[1], s * a[2], s * a[3]>> ELSE <<s * a[1], s * a[2], s * a[3], s * a[4]>>
Sub(a, b) == Add(a, Sc(-1, b))
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Abs(x) == IF x < 0 THEN -x ELSE x
Sq(x) == x * x
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
Root(n) == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n
IsSq(n) == n >= 0 /\ Sq(Root(n)) = n
N(q) == Sq(q[1]) + Sq(q[2]) + Sq(q[3]) + Sq(q[4])
Mat(q) == LET w == q[1] x == q[2] y == q[3] z == q[4] IN
          <<<<w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)>>,
            <<2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)>>,
            <<2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z>>>>
Rot(q, v) == LET m == Mat(q) IN <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>

----------------------------------------------------------------------------
(* shapes *)
Kinds == {"sphere", "box", "cylinder", "capsule", "cone", "plane"}
Sphere(r) == [k |-> "sphere", r |-> r, h |-> 0, d |-> <<0, 0, 0>>]
Box(d) == [k |-> "box", r |-> 0, h |-> 0, d |-> d]
Round(k, r, h) == [k |-> k, r |-> r, h |-> h, d |-> <<0, 0, 0>>]
Plane(n) == [k |-> "plane", r |-> 0, h |-> 0, d |-> n]
(* 3 volumes / pi; of boxes: 3 volumes *)
Vol(s) == CASE s.k = "sphere" -> 4 * s.r * s.r * s.r
            [] s.k = "box" -> 3 * s.d[1] * s.d[2] * s.d[3]
            [] s.k = "cylinder" -> 3 * s.r * s.r * s.h
            [] s.k = "capsule" -> 3 * s.r * s.r * s.h + 4 * s.r * s.r * s.r
            [] s.k = "cone" -> s.r * s.r * s.h
            [] s.k = "plane" -> 0
Unknown == <<-999, -999, -999>>
(* the size of the smallest box around it *)
Dim(s) == CASE s.k = "sphere" -> <<2 * s.r, 2 * s.r, 2 * s.r>>
            [] s.k = "box" -> s.d
            [] s.k \in {"cylinder", "cone"} -> <<2 * s.r, s.h, 2 * s.r>>
            [] s.k = "capsule" -> <<2 * s.r, s.h + 2 * s.r, 2 * s.r>>
            [] s.k = "plane" -> Unknown
(* 60 times the moments of inertia (/ pi) of density n around the centre *)
Moment(s, n) == LET r == s.r h == s.h IN
            CASE s.k = "sphere" -> LET i == 32 * n * r * r * r * r * r IN <<i, i, i>>
              [] s.k = "box" -> LET m == 5 * n * s.d[1] * s.d[2] * s.d[3] IN <<m * (Sq(s.d[2]) + Sq(s.d[3])), m * (Sq(s.d[1]) + Sq(s.d[3])), m * (Sq(s.d[1]) + Sq(s.d[2]))>>
              [] s.k = "cylinder" -> LET i == 5 * n * r * r * h * (3 * r * r + h * h) IN <<i, 30 * n * r * r * r * r * h, i>>
              [] s.k = "capsule" -> LET i == 5 * n * r * r * h * (3 * r * r + h * h) + n * r * r * r * (32 * r * r + 30 * r * h + 20 * h * h) IN <<i, 30 * n * r * r * r * r * h + 32 * n * r * r * r * r * r, i>>
              [] s.k = "cone" -> Unknown
              [] s.k = "plane" -> <<0, 0, 0>>
Scaled(s, f) == IF s.k = "plane" THEN s ELSE [s EXCEPT !.r = f * @, !.h = f * @, !.d = Sc(f, @)]
(* scaled by 2 or 4 with the roots that whole numbers have: c: cube root of the product, q: square root of x z *)
ScaledV(s, v) == LET c == CHOOSE c \in 1..64 : c * c * c = v[1] * v[2] * v[3] q == Root(v[1] * v[3]) IN
               CASE s.k = "sphere" -> [s EXCEPT !.r = c * @]
                 [] s.k = "box" -> [s EXCEPT !.d = <<v[1] * @[1], v[2] * @[2], v[3] * @[3]>>]
                 [] s.k = "plane" -> s
                 [] OTHER -> [s EXCEPT !.r = q * @, !.h = v[2] * @]
(* the surface point in direction a (length l, kk = length of its horizontal part), times l * far.m *)
Far(s, a, l, kk) == CASE s.k = "sphere" -> [m |-> 1, n |-> s.r]
                      [] s.k = "box" -> LET is == {i \in 1..3 : a[i] # 0} p == (IF a[1] = 0 THEN 1 ELSE Abs(a[1])) * (IF a[2] = 0 THEN 1 ELSE Abs(a[2])) * (IF a[3] = 0 THEN 1 ELSE Abs(a[3])) IN
                                        LET at == {(s.d[i] * l * p) \div Abs(a[i]) : i \in is} IN [m |-> 2 * p, n |-> CHOOSE x \in at : \A y \in at : x <= y]
                      [] s.k = "cylinder" -> IF 2 * Abs(a[2]) * s.r > s.h * kk THEN [m |-> 2 * Abs(a[2]), n |-> s.h * l] ELSE [m |-> kk, n |-> s.r * l]
                      [] s.k = "capsule" -> IF 2 * Abs(a[2]) * s.r > s.h * kk THEN [m |-> 2 * l, n |-> Abs(a[2]) * s.h + Root(4 * Sq(s.r * l) - Sq(s.h * kk))] ELSE [m |-> kk, n |-> s.r * l]
                      [] s.k = "plane" -> [m |-> 1, n |-> 0]
Exact(s, l, kk) == s.k # "capsule" \/ IsSq(4 * Sq(s.r * l) - Sq(s.h * kk))
D(i) == ToString(i)
D3(v) == D(v[1]) \o " " \o D(v[2]) \o " " \o D(v[3])
Show(s) == CASE s.k = "sphere" -> "sphere( radius=" \o D(s.r) \o " )"
             [] s.k = "box" -> "box( half_dim=" \o D3([i \in 1..3 |-> s.d[i] \div 2]) \o " )"
             [] s.k = "plane" -> "plane( normal=" \o D3(s.d) \o " )"
             [] OTHER -> s.k \o "( radius=" \o D(s.r) \o ", height=" \o D(s.h) \o " )"
ShapeR(s, n, f, v) == [vol |-> Vol(s), dim |-> Dim(s), inertia |-> Moment(s, n), scaled |-> Scaled(s, f), scaledv |-> ScaledV(s, v), back |-> s,
                       text |-> IF s.k = "box" /\ \E i \in 1..3 : s.d[i] % 2 = 1 THEN "odd" ELSE Show(s), valid |-> ~(s.k = "sphere" /\ s.r = 0)]
(* settings of a shape: entries given as <<key, values>> *)
Has(e, k) == \E i \in DOMAIN e : e[i][1] = k
Val(e, k) == LET i == CHOOSE i \in DOMAIN e : e[i][1] = k /\ \A j \in DOMAIN e : e[j][1] = k => i <= j IN e[i][2]
Read(k, e) == CASE k = "sphere" -> IF Has(e, "radius") THEN OkV(Sphere(Val(e, "radius")[1])) ELSE Fail
                [] k = "box" -> IF Has(e, "dim") THEN OkV(Box(Val(e, "dim"))) ELSE Fail
                [] k \in {"cylinder", "cone"} -> IF Has(e, "radius") /\ Has(e, "height") THEN OkV(Round(k, Val(e, "radius")[1], Val(e, "height")[1])) ELSE Fail
                [] k = "capsule" -> IF ~Has(e, "radius") THEN Fail
                                    ELSE IF Has(e, "total_length") THEN OkV(Round(k, Val(e, "radius")[1], Val(e, "total_length")[1] - 2 * Val(e, "radius")[1]))
                                    ELSE IF Has(e, "height") THEN OkV(Round(k, Val(e, "radius")[1], Val(e, "height")[1])) ELSE Fail
                [] k = "plane" -> OkV(Plane(IF Has(e, "normal") THEN Val(e, "normal") ELSE <<1, 0, 0>>))
                [] OTHER -> OkV("no")
(* the box around a set of points *)
RECURSIVE Bounds(_)
Bounds(ps) == IF Len(ps) = 1 THEN [lo |-> ps[1], hi |-> ps[1]]
              ELSE LET b == Bounds(Tail(ps)) IN [lo |-> [i \in 1..3 |-> Lo(b.lo[i], ps[1][i])], hi |-> [i \in 1..3 |-> Hi(b.hi[i], ps[1][i])]]
Corners(d) == {<<x * d[1], y * d[2], z * d[3]>> : x \in {-1, 1}, y \in {-1, 1}, z \in {-1, 1}}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
(* times twice the squared length of q *)
BoxAt(d, q, p) == LET at == {Add(Sc(2 * N(q), p), Rot(q, c)) : c \in Corners(d)} IN
                  [lo |-> [i \in 1..3 |-> Least({x[i] : x \in at})], hi |-> [i \in 1..3 |-> Most({x[i] : x \in at})]]
(* where a line meets a plane: times the slope *)
Meet(p, d, n, q, t) == LET pn == Rot(q, n) IN [m |-> Dot(d, pn), at |-> Sub(Sc(Dot(d, pn), p), Sc(Dot(Sub(p, t), pn), d))]

----------------------------------------------------------------------------
(* colours *)
Clamped(c, m) == [i \in 1..4 |-> Lo(Hi(c[i], 0), m)]
RECURSIVE Before(_, _)
Before(a, b) == a # <<>> /\ (a[1] < b[1] \/ (a[1] = b[1] /\ Before(Tail(a), Tail(b))))
ColR(a, b, s) == [add |-> Add(a, b), sub |-> Sub(a, b), times |-> Sc(s, a), eq |-> (a = b), lt |-> Before(a, b), clamp |-> Clamped(a, 255), null |-> (a = <<0, 0, 0, 0>>),
                  rgb |-> <<0>> \o SubSeq(Clamped(a, 255), 1, 3), rgba |-> Clamped(a, 255), back |-> Clamped(a, 255), opaque |-> SubSeq(Clamped(a, 255), 1, 3) \o <<255>>,
                  light |-> 299 * Sq(b[1] % 4) + 587 * Sq(b[2] % 4) + 114 * Sq(b[3] % 4)]
(* hue in multiples of 15 degrees, saturation and value in quarters: in 64ths *)
Hsv(h, s, v) == LET k == (h % 24) \div 4 f == h % 4 p == 4 * v * (4 - s) q == v * (16 - s * f) t == v * (16 - s * (4 - f)) w == 16 * v IN
                <<<<w, t, p>>, <<q, w, p>>, <<p, w, t>>, <<p, q, w>>, <<t, p, w>>, <<w, p, q>>>>[k + 1] \o <<64>>
Named == [red |-> 0, orange |-> 2, yellow |-> 4, green |-> 8, cyan |-> 12, blue |-> 16, magenta |-> 20, white |-> 0]
HexDigit(i) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>[i + 1]
HexUp(i) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>[i + 1]
RECURSIVE Hex(_, _)
Hex(c, up) == IF c = <<>> THEN "" ELSE (IF up THEN HexUp(c[1] \div 16) \o HexUp(c[1] % 16) ELSE HexDigit(c[1] \div 16) \o HexDigit(c[1] % 16)) \o Hex(Tail(c), up)
(* colours as text: [t |-> text, m |-> fraction, c |-> what it means] *)
ColText(f, c) == CASE f = "hex" -> [t |-> Hex(SubSeq(c, 1, 3), FALSE), c |-> SubSeq(c, 1, 3) \o <<255>>]
                   [] f = "HEX" -> [t |-> Hex(SubSeq(c, 1, 3), TRUE), c |-> SubSeq(c, 1, 3) \o <<255>>]
                   [] f = "0x" -> [t |-> "0x" \o Hex(SubSeq(c, 1, 3), FALSE), c |-> SubSeq(c, 1, 3) \o <<255>>]
                   [] f = "hexa" -> [t |-> Hex(c, FALSE), c |-> c]
                   [] f = "0Xa" -> [t |-> "0X" \o Hex(c, TRUE), c |-> c]
                   [] f = "rgb" -> [t |-> "rgb(" \o D(c[1]) \o ", " \o D(c[2]) \o "," \o D(c[3]) \o ")", c |-> SubSeq(c, 1, 3) \o <<255>>]
                   [] f = "RGB" -> [t |-> "RGB( " \o D(c[1]) \o ";" \o D(c[2]) \o " " \o D(c[3]) \o " )", c |-> SubSeq(c, 1, 3) \o <<255>>]
NoColours == {"red", "rgb", "rgb(1,2)", "rgb(1,2,3,4)", "rgb(a,b,c)", "hsv(0,0)", "hsv()", "", "0x", "beige", "#ff0000", "ff00zz", "12 34", "hsv(x,1,1)", "dead end"}
(* a gradient: points <<place, colour>> in quarters and 255ths; the value at quarter x, times the length of its interval *)
Grad(g, x) == LET below == {i \in DOMAIN g : g[i][1] <= x} IN
              IF below = {} THEN [m |-> 1, c |-> g[1][2]]
              ELSE LET i == Most(below) IN IF i = Len(g) THEN [m |-> 1, c |-> g[i][2]]
              ELSE LET w == g[i + 1][1] - g[i][1] IN [m |-> w, c |-> Add(Sc(w - (x - g[i][1]), g[i][2]), Sc(x - g[i][1], g[i + 1][2]))]

Ap(s, o) ==
  CASE o.op = "shape" -> R(s, OkV(ShapeR(o.s, o.n, o.f, o.v)))
    [] o.op = "read" -> R(s, Read(o.k, o.e))
    [] o.op = "far" -> R(s, OkV(Far(o.s, o.a, o.l, o.kk).n))
    [] o.op = "bounds" -> R(s, OkV(Bounds(o.ps)))
    [] o.op = "boxat" -> R(s, OkV(BoxAt(o.d, o.q, o.p)))
    [] o.op = "ballat" -> R(s, OkV([lo |-> [i \in 1..3 |-> o.p[i] - o.r], hi |-> [i \in 1..3 |-> o.p[i] + o.r]]))
    [] o.op = "caps" -> R(s, OkV([a |-> o.p, b |-> Add(Sc(N(o.q), o.p), Rot(o.q, <<0, o.h, 0>>))]))
    [] o.op = "meet" -> R(s, OkV(Meet(o.p, o.d, o.n, o.q, o.t).at))
    [] o.op = "col" -> R(s, OkV(ColR(o.a, o.b, o.s)))
    [] o.op = "hsv" -> R(s, OkV(Hsv(o.h, o.s, o.v)))
    [] o.op = "named" -> R(s, OkV(Hsv(Named[o.k], IF o.k = "white" THEN 0 ELSE o.s, o.v)))
    [] o.op = "text" -> R(s, IF o.f = "none" THEN Fail ELSE OkV(ColText(o.f, o.c).c))
    [] o.op = "hsvtext" -> R(s, OkV(Hsv(o.h, o.s, o.v)))
    [] o.op = "node" -> R(s, OkV(o.c))
    [] o.op = "grad" -> R(s, OkV(Grad(o.g, o.x).c))
    [] o.op = "unique" -> R(s, OkV([different |-> TRUE, within |-> TRUE, bright |-> TRUE]))

----------------------------------------------------------------------------
VARIABLES st, hist
vars == <<st, hist>>
Init == st = 0 /\ hist = <<>>
Do(o) == Len(hist) < MaxLen /\ st' = st /\ hist' = Append(hist, o @@ [ret |-> Ap(st, o).ret])
P(x) == Part = x
(* directions of whole length, with a horizontal part of whole length *)
Dirs == {<<0, 1, 0>>, <<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, -1>>, <<3, 4, 0>>, <<4, -3, 0>>, <<0, 4, -3>>, <<-3, 0, 4>>, <<-9, 20, 12>>, <<12, -20, 9>>, <<16, 15, -12>>, <<0, 3, 4>>, <<-12, 5, 0>>, <<5, 12, 0>>, <<0, -24, 7>>, <<24, 7, 0>>}
Shapes3 == {Sphere(r) : r \in 0..M} \cup {Box(d) : d \in [1..3 -> 1..M]} \cup {Round(k, r, h) : k \in {"cylinder", "capsule", "cone"}, r \in 1..M, h \in 0..M} \cup {Plane(n) : n \in {<<1, 0, 0>>, <<0, -1, 2>>}}
Factors == {<<4, 2, 1>>, <<1, 8, 1>>, <<1, 1, 1>>, <<2, 4, 8>>, <<9, 3, 1>>}
Qs == {q \in [1..4 -> {-1, 0, 1}] : N(q) \in {1, 2, 4} /\ q[1] >= 0} \cup {<<2, 1, 0, 0>>, <<1, 0, 0, -2>>, <<0, 1, 2, 2>>}
Ps == {<<0, 0, 0>>, <<1, -2, 3>>}
Cs == {0, 1, 127, 255}
E1(k) == {<<k, <<x>>>> : x \in {1, 3}}
Entries == E1("radius") \cup E1("height") \cup {<<"total_length", <<9>>>>, <<"dim", <<2, 4, 6>>>>, <<"normal", <<0, 0, -1>>>>}
Next ==
  \/ P("shape") /\ \/ \E s \in Shapes3, n \in {1, 3}, f \in {1, 2}, v \in Factors : Do([op |-> "shape", s |-> s, n |-> n, f |-> f, v |-> v])
                   \/ \E k \in Kinds \cup {"", "cube", "Sphere", "conus"}, e \in UNION {[1..m -> Entries] : m \in 0..2} : Do([op |-> "read", k |-> k, e |-> e])
  \/ P("far") /\ \E s \in {x \in Shapes3 : x.k # "cone" /\ (x.k = "box" \/ x.r > 0 \/ x.k = "plane")} \cup {Round("capsule", 5, 10), Round("capsule", 5, 6), Round("capsule", 13, 10), Round("cylinder", 2, 7)}, a \in Dirs :
                    LET l == Root(Dot(a, a)) kk == Root(Sq(a[1]) + Sq(a[3])) IN
                    /\ Exact(s, l, kk) /\ (s.k \in {"cylinder", "capsule"} => s.h > 0 \/ a[2] # 0)
                    /\ Do([op |-> "far", s |-> s, a |-> a, l |-> l, kk |-> kk, m |-> Far(s, a, l, kk).m])
  \/ P("place") /\ \/ \E n \in 1..3 : \E ps \in [1..n -> {<<0, 0, 0>>, <<1, -2, 3>>, <<-4, 5, 0>>, <<2, 2, -2>>}], b \in BOOLEAN : Do([op |-> "bounds", ps |-> ps, b |-> b])
                   \/ \E d \in [1..3 -> 1..M], q \in Qs, p \in Ps : Do([op |-> "boxat", d |-> d, q |-> q, p |-> p])
                   \/ \E r \in 0..M, q \in Qs, p \in Ps : Do([op |-> "ballat", r |-> r, q |-> q, p |-> p])
                   \/ \E h \in 0..M, q \in Qs, p \in Ps : Do([op |-> "caps", h |-> h, q |-> q, p |-> p])
                   \/ \E p \in Ps, d \in {<<1, 0, 0>>, <<1, 2, -1>>, <<0, -3, 1>>}, n \in {<<1, 0, 0>>, <<0, 1, 0>>, <<2, 0, -1>>}, q \in Qs, t \in {<<0, 0, 0>>, <<3, 1, -1>>} :
                        Meet(p, d, n, q, t).m # 0 /\ Do([op |-> "meet", p |-> p, d |-> d, n |-> n, q |-> q, t |-> t, m |-> Meet(p, d, n, q, t).m])
  \/ P("col") /\ \E a \in [1..4 -> {-3, 0, 255, 300}] \cup {<<1, 2, 3, 4>>, <<254, 128, 127, 126>>}, b \in {<<0, 0, 0, 0>>, <<1, 2, 3, 4>>, <<0, 255, 0, 255>>, <<200, 0, 0, 300>>, <<4, 4, 4, 4>>, <<1, 2, 3, 5>>}, s \in {2, -3} :
                   Do([op |-> "col", a |-> a, b |-> b, s |-> s])
  \/ P("hsv") /\ \/ \E h \in (-48)..48, s \in 0..4, v \in 0..4 : Do([op |-> "hsv", h |-> h, s |-> s, v |-> v])
                 \/ \E k \in DOMAIN Named, s \in 0..4, v \in 0..4 : Do([op |-> "named", k |-> k, s |-> s, v |-> v])
                 \/ \E n \in {1, 12, 60}, b \in 1..4 : Do([op |-> "unique", n |-> n, b |-> b])
  \/ P("text") /\ \/ \E f \in {"hex", "HEX", "0x", "hexa", "0Xa", "rgb", "RGB"}, c \in [1..4 -> {0, 10, 171, 255}] : Do([op |-> "text", f |-> f, t |-> ColText(f, c).t, c |-> c])
                  \/ \E t \in NoColours : Do([op |-> "text", f |-> "none", t |-> t, c |-> <<0, 0, 0, 0>>])
                  \/ \E h \in (-3)..25, s \in 0..4, v \in {0, 1, 4} : \/ Do([op |-> "hsvtext", h |-> h, s |-> s, v |-> v, t |-> "hsv(" \o D(15 * h) \o ", " \o D(25 * s) \o ", " \o D(25 * v) \o ")"])
                                                                   \/ Do([op |-> "hsvtext", h |-> h, s |-> s, v |-> v, t |-> ""])
                  \/ \E c \in [1..4 -> {0, 3, 4}], b \in BOOLEAN : \/ Do([op |-> "node", c |-> c, a |-> TRUE, b |-> b])
                                                                   \/ c[4] = 4 /\ Do([op |-> "node", c |-> c, a |-> FALSE, b |-> b])
  \/ P("grad") /\ \E n \in 1..3 : \E g \in [1..n -> {-6, 0, 3, 4} \X {<<0, 0, 0, 255>>, <<255, 51, 0, 0>>, <<30, 60, 90, 120>>}], x \in (-7)..5 :
                    (\A i \in 1..(n - 1) : g[i][1] < g[i + 1][1]) /\ Do([op |-> "grad", g |-> g, x |-> x, m |-> Grad(g, x).m])
Spec == Init /\ [][Next]_vars
View == IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]

----------------------------------------------------------------------------
(* the property *)
Lst == IF hist = <<>> THEN [op |-> "none"] ELSE hist[Len(hist)]
Pow(b, n) == IF n = 3 THEN b * b * b ELSE b * b * b * b * b
(* volumes grow with the third, moments of inertia with the fifth power of the size; a capsule without height is a sphere *)
InvScale == Lst.op = "shape" /\ Lst.s.k # "plane" => /\ Vol(Scaled(Lst.s, 2)) = 8 * Vol(Lst.s)
                                                     /\ Lst.s.k # "cone" => Moment(Scaled(Lst.s, 2), 1) = Sc(32, Moment(Lst.s, 1)) /\ Moment(Lst.s, 3) = Sc(3, Moment(Lst.s, 1))
                                                     /\ Lst.s.k = "capsule" /\ Lst.s.h = 0 => Moment(Lst.s, 1) = Moment(Sphere(Lst.s.r), 1) /\ Vol(Lst.s) = Vol(Sphere(Lst.s.r)) /\ Dim(Lst.s) = Dim(Sphere(Lst.s.r))
(* two cylinders on top of each other are one: moments around the centre of the whole (moved by a quarter of its height each) *)
InvStack == Lst.op = "shape" /\ Lst.s.k = "cylinder" => LET c == Lst.s b == Round("cylinder", c.r, 2 * c.h) i == Moment(c, 1) j == Moment(b, 1) IN
                /\ j[2] = 2 * i[2] /\ j[1] = 2 * i[1] + 2 * 5 * Vol(c) * Sq(c.h)
(* moments of a capsule from those of its middle and of two half spheres, whose centre is 3/8 of the radius from the middle of the sphere *)
InvCapsule == Lst.op = "shape" /\ Lst.s.k = "capsule" => LET c == Lst.s m == Vol(Sphere(c.r)) IN
                LET own == Moment(Sphere(c.r), 1)[1] * 64 - 20 * m * 9 * Sq(c.r) IN     (* times 64: both half spheres around their centre *)
                64 * Moment(c, 1)[1] = 64 * Moment(Round("cylinder", c.r, c.h), 1)[1] + own + 20 * m * Sq(4 * c.h + 3 * c.r)
(* the point at that distance is on the surface *)
InvFar == Lst.op = "far" => LET s == Lst.s f == Far(s, Lst.a, Lst.l, Lst.kk) y == f.n * Lst.a[2] x == f.n * Lst.kk u == f.m * Lst.l IN      (* at (x, y) / u *)
            CASE s.k = "cylinder" -> x <= s.r * u /\ 2 * Abs(y) <= s.h * u /\ (x = s.r * u \/ 2 * Abs(y) = s.h * u)
              [] s.k = "capsule" -> \/ x = s.r * u /\ 2 * Abs(y) <= s.h * u
                                    \/ 2 * Abs(y) >= s.h * u /\ Sq(x) + Sq(Abs(y) - (s.h * u) \div 2) = Sq(s.r * u)
              [] OTHER -> TRUE
InvMeet == Lst.op = "meet" => LET r == Meet(Lst.p, Lst.d, Lst.n, Lst.q, Lst.t) pn == Rot(Lst.q, Lst.n) IN Dot(Sub(r.at, Sc(r.m, Lst.t)), pn) = 0
InvHsv == Lst.op = "hsv" => LET c == Hsv(Lst.h, Lst.s, Lst.v) g == {c[1], c[2], c[3]} IN Most(g) = 16 * Lst.v /\ Least(g) = 4 * Lst.v * (4 - Lst.s) /\ Hsv(Lst.h + 24, Lst.s, Lst.v) = c
InvBounds == Lst.op = "bounds" => \A i \in DOMAIN Lst.ps : \A j \in 1..3 : Bounds(Lst.ps).lo[j] <= Lst.ps[i][j] /\ Lst.ps[i][j] <= Bounds(Lst.ps).hi[j]
EmitEdge == EmitB(hist, hist'[Len(hist')])
=============================================================================
