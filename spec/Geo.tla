--------------------------------- MODULE Geo --------------------------------
(* Vectors, rotations and rigid transforms in exact arithmetic.  A rotation is given by a          *)
(* quaternion <<w, x, y, z>> of integers that need not have length one: the code gets it divided   *)
(* by its length, and a rotated vector times the squared length is a vector of integers again.     *)
EXTENDS Conf
CONSTANTS Part, MaxLen, M, Rich, Listed

----------------------------------------------------------------------------
(* vectors *)
Add(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Sub(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Mul(a, b) == [i \in DOMAIN a |-> a[i] * b[i]]
Sc(s, a) == [i \in DOMAIN a |-> s * a[i]]
RECURSIVE SumS(_)
SumS(a) == IF a = <<>> THEN 0 ELSE a[1] + SumS(Tail(a))
Dot(a, b) == SumS(Mul(a, b))
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Abs(x) == IF x < 0 THEN -x ELSE x
Clamp(v, l, u) == IF v < l THEN l ELSE IF v > u THEN u ELSE v
Zero(a) == \A i \in DOMAIN a : a[i] = 0
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(Abs(b), Abs(a) % Abs(b))

----------------------------------------------------------------------------
(* quaternions: Hamilton's table, and the matrix of the rotation *)
QMul(q, r) == LET w == q[1] v == SubSeq(q, 2, 4) u == r[1] t == SubSeq(r, 2, 4) c == Cross(v, t) IN
              <<w * u - Dot(v, t)>> \o [i \in 1..3 |-> w * t[i] + u * v[i] + c[i]]
Conj(q) == <<q[1], -q[2], -q[3], -q[4]>>
N(q) == Dot(q, q)
Red(q) == LET g == Gcd(Gcd(q[1], q[2]), Gcd(q[3], q[4])) IN [i \in 1..4 |-> IF q[i] < 0 THEN -((-q[i]) \div g) ELSE q[i] \div g]
(* q and -q are the same rotation *)
Pos(q) == LET k == CHOOSE k \in 1..4 : q[k] # 0 /\ \A j \in 1..(k - 1) : q[j] = 0 IN IF q[k] < 0 THEN Sc(-1, q) ELSE q
Mat(q) == LET w == q[1] x == q[2] y == q[3] z == q[4] IN
          <<<<w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)>>,
            <<2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)>>,
            <<2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z>>>>
Rot(q, v) == [i \in 1..3 |-> Dot(Mat(q)[i], v)]
Col(m, j) == [i \in 1..3 |-> m[i][j]]
(* k quarters of a turn around axis a *)
Half(k) == <<<<1, 0>>, <<1, 1>>, <<0, 1>>, <<-1, 1>>, <<-1, 0>>, <<-1, -1>>, <<0, -1>>, <<1, -1>>>>[(k % 8) + 1]
Turn(a, k) == LET h == Half(k) IN [i \in 1..4 |-> IF i = 1 THEN h[1] ELSE IF i = a + 1 THEN h[2] ELSE 0]
Orders == [xyz |-> <<1, 2, 3>>, xzy |-> <<1, 3, 2>>, yxz |-> <<2, 1, 3>>, yzx |-> <<2, 3, 1>>, zxy |-> <<3, 1, 2>>, zyx |-> <<3, 2, 1>>]
Euler(o, k) == LET r == Orders[o] IN QMul(QMul(Turn(r[1], k[r[1]]), Turn(r[2], k[r[2]])), Turn(r[3], k[r[3]]))
(* the part of a rotation around an axis *)
Twist(q, a) == LET d == Dot(SubSeq(q, 2, 4), a) IN <<q[1] * Dot(a, a)>> \o Sc(d, a)
(* reflection in the plane z = 0 *)
MirV(v) == <<v[1], v[2], -v[3]>>
MirQ(q) == <<q[1], -q[2], -q[3], q[4]>>
MirA(v) == <<-v[1], -v[2], v[3]>>

----------------------------------------------------------------------------
(* what the calls give; every fraction is times its denominator *)
Vec3(a, b, s) == [add |-> Add(a, b), sub |-> Sub(a, b), neg |-> Sc(-1, a), times |-> Sc(s, a), div |-> a, mul |-> Mul(a, b), back |-> a, inv |-> <<1, 1, 1>>,
                  dot |-> Dot(a, b), cross |-> Cross(a, b), len2 |-> Dot(a, a), dist2 |-> Dot(Sub(a, b), Sub(a, b)), man |-> Abs(a[1]) + Abs(a[2]) + Abs(a[3]),
                  abs |-> [i \in 1..3 |-> Abs(a[i])], clamp |-> [i \in 1..3 |-> Clamp(a[i], -Abs(s), Abs(s))], proj |-> Sc(Dot(a, b), b),
                  xy |-> <<a[1], a[2], 0>>, xz |-> <<a[1], 0, a[3]>>, yz |-> <<0, a[2], a[3]>>, unit |-> a, isunit |-> (Dot(a, a) = 1), null |-> Zero(a), eq |-> (a = b)]
Vec4(a, b, s) == [add |-> Add(a, b), sub |-> Sub(a, b), neg |-> Sc(-1, a), times |-> Sc(s, a), div |-> a, len2 |-> Dot(a, a), null |-> Zero(a)]
VecN(a, b, s) == [add |-> Add(a, b), sub |-> Sub(a, b), neg |-> Sc(-1, a), times |-> Sc(s, a), div |-> a, len2 |-> Dot(a, a), dist2 |-> Dot(Sub(a, b), Sub(a, b)),
                  dot |-> Dot(a, b), unit |-> a, isunit |-> (Dot(a, a) = 1), null |-> Zero(a), eq |-> (a = b), size |-> Len(a)]
Scale3(s, v) == [mul |-> Mul(s, v), both |-> Mul(s, v), div |-> v, one |-> (s = <<1, 1, 1>>)]
(* m: rows *)
MatN(m, v, c, r) == [prod |-> [i \in DOMAIN m |-> Dot(m[i], v)], rows |-> Len(m), cols |-> Len(v),
                     resized |-> [i \in 1..r |-> [j \in 1..c |-> IF i <= Len(m) /\ j <= Len(v) THEN m[i][j] ELSE 0]]]
RotR(q, v) == [rot |-> Rot(q, v), back |-> Rot(Conj(q), v), x |-> Col(Mat(q), 1), y |-> Col(Mat(q), 2), z |-> Col(Mat(q), 3),
               mat |-> Pos(q), vector |-> Pos(q), axis |-> Pos(q), inv |-> Conj(q), conj |-> Conj(q), n |-> N(q), unit |-> q, isunit |-> (N(q) = 1), ident |-> (q = <<1, 0, 0, 0>>),
               positive |-> IF q[1] < 0 THEN Sc(-1, q) ELSE q]
Around(q, a) == Pos(Twist(q, a))
QQ(q, r, v) == [mul |-> QMul(q, r), rot |-> Rot(q, Rot(r, v)), from |-> QMul(Conj(q), r), eq |-> (q = r)]
(* known to go wrong (known_findings.txt): half a turn around x for every pair of opposite directions *)
Turned(a) == <<a[1], -a[2], -a[3]>>
Dirs(a, b) == [to |-> IF "opposite-directions" \in Listed /\ b = Sc(-1, a) THEN Turned(a) ELSE b, w2 |-> Dot(a, a) + Dot(a, b)]
EulerR(o, k) == [q |-> Euler(o, k), back |-> Pos(Euler(o, k)), parsed |-> Euler(o, k)]
TfR(q, p, r, s, v) == [at |-> Add(Sc(N(q), p), Rot(q, v)), inv_at |-> Rot(Conj(q), Sub(v, p)), cp |-> Add(Sc(N(q), p), Rot(q, s)), cq |-> QMul(q, r),
                       ip |-> Sc(-1, Rot(Conj(q), p)), iq |-> Conj(q), dp |-> Rot(Conj(q), Sub(s, p)), dq |-> QMul(Conj(q), r), text |-> p, textq |-> q, ident |-> (q[1] > 0 /\ Zero(Tail(q)) /\ Zero(p))]
MirR(q, v) == [v |-> MirV(v), q |-> MirQ(q), a |-> MirA(v), rot |-> MirV(Rot(q, v)), tp |-> MirV(v), tq |-> MirQ(q)]
(* angles in whole degrees *)
AngR(a, b, s) == [add |-> a + b, sub |-> a - b, neg |-> -a, abs |-> Abs(a), times |-> s * a, div |-> a, lt |-> (a < b), le |-> (a <= b), eq |-> (a = b), rad |-> a]
(* the angle of a turned axis in the plane around x, y and z: its <<sine, cosine>> times its length there *)
Lean(q) == LET m == Mat(q) IN [pitch |-> <<m[3][2], m[2][2]>>, yaw |-> <<m[1][3], m[3][3]>>, roll |-> <<m[2][1], m[1][1]>>]
(* n with k decimals in w places *)
Places(n, k, w) == LET t == ToString(n) \o (IF k = 3 THEN ".000" ELSE ".00") IN SubSeq("        ", 1, IF Len(t) < w THEN w - Len(t) ELSE 0) \o t
Made(d, v) == [text |-> Places(v[1], 3, 0) \o " " \o Places(v[2], 3, 0) \o " " \o Places(v[3], 3, 0),
               quat |-> Places(d[1], 3, 7) \o "\t" \o Places(v[1], 3, 7) \o "\t" \o Places(v[2], 3, 7) \o "\t" \o Places(v[3], 3, 7),
               deg |-> Places(v[1], 2, 7) \o "\t" \o Places(v[2], 2, 7) \o "\t" \o Places(v[3], 2, 7), diag |-> Mul(d, v), rows |-> <<<<d[1], 0, 0>>, <<0, d[2], 0>>, <<0, 0, d[3]>>>>, axes |-> <<<<v[1], v[1], v[1]>>, <<-1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>>>>]
(* eighths of a turn *)
TanR(k) == <<0, 1, 0, -1>>[(k % 4) + 1]
TrigR(k) == [sin |-> Half(2 * k)[2], cos |-> Half(2 * k)[1]]

----------------------------------------------------------------------------
(* a transform that is changed step by step; its rotations are those of a cube *)
InitSt == [q |-> <<1, 0, 0, 0>>, p |-> <<0, 0, 0>>]
(* rotated by a rotation of the cube: whole again *)
Whole(q, v) == [i \in 1..3 |-> LET x == Rot(q, v)[i] IN IF x < 0 THEN -((-x) \div N(q)) ELSE x \div N(q)]
Comp(s, t) == [q |-> Red(QMul(s.q, t.q)), p |-> Add(s.p, Whole(s.q, t.p))]
Inv(s) == [q |-> Conj(s.q), p |-> Sc(-1, Whole(Conj(s.q), s.p))]
(* components of a quaternion of the cube's rotations: 0, 1/2, sqrt 1/2, 1 as 0..3 *)
Code(c, n) == LET f == IF 4 * c * c = n THEN 1 ELSE IF 2 * c * c = n THEN 2 ELSE IF c * c = n THEN 3 ELSE 0 IN IF c < 0 THEN -f ELSE f
See(s) == [q |-> [i \in 1..4 |-> Code(s.q[i], N(s.q))], p |-> s.p]
Ap(s, o) ==
  CASE o.op = "w_mul" -> LET t == Comp(s, [q |-> o.q, p |-> o.p]) IN R(t, OkV(See(t)))
    [] o.op = "w_pre" -> LET t == Comp([q |-> o.q, p |-> o.p], s) IN R(t, OkV(See(t)))
    [] o.op = "w_inv" -> LET t == Inv(s) IN R(t, OkV(See(t)))
    [] o.op = "w_mir" -> LET t == [q |-> MirQ(s.q), p |-> MirV(s.p)] IN R(t, OkV(See(t)))
    [] o.op = "w_rel" -> LET t == Comp(Inv([q |-> o.q, p |-> o.p]), s) IN R(t, OkV(See(t)))
    [] o.op = "vec3" -> R(s, OkV(Vec3(o.a, o.b, o.s)))
    [] o.op = "vec4" -> R(s, OkV(Vec4(o.a, o.b, o.s)))
    [] o.op = "vecn" -> R(s, OkV(VecN(o.a, o.b, o.s)))
    [] o.op = "scale3" -> R(s, OkV(Scale3(o.s, o.v)))
    [] o.op = "matn" -> R(s, OkV(MatN(o.m, o.v, o.c, o.r)))
    [] o.op = "rot" -> R(s, OkV(RotR(o.q, o.v)))
    [] o.op = "around" -> R(s, OkV(Around(o.q, o.a)))
    [] o.op = "qq" -> R(s, OkV(QQ(o.q, o.r, o.v)))
    [] o.op = "dirs" -> R(s, OkV(Dirs(o.a, o.b)))
    [] o.op = "euler" -> R(s, OkV(EulerR(o.o, o.k)))
    [] o.op = "euler_of" -> R(s, OkV(Pos(o.q)))
    [] o.op = "tf" -> R(s, OkV(TfR(o.q, o.p, o.r, o.s, o.v)))
    [] o.op = "mirror" -> R(s, OkV(MirR(o.q, o.v)))
    [] o.op = "angle" -> R(s, OkV(AngR(o.a, o.b, o.s)))
    [] o.op = "lean" -> R(s, OkV(Lean(o.q)))
    [] o.op = "made" -> R(s, OkV(Made(o.d, o.v)))
    [] o.op = "tan" -> R(s, OkV(TanR(o.k)))
    [] o.op = "trig" -> R(s, OkV(TrigR(o.k)))

----------------------------------------------------------------------------
VARIABLES st, hist
vars == <<st, hist>>
Init == st = InitSt /\ hist = <<>>
Do(o) == LET r == Ap(st, o) IN Len(hist) < MaxLen /\ st' = r.st /\ hist' = Append(hist, o @@ [ret |-> r.ret])
V3(n) == [1..3 -> (-n)..n]
Quats == {q \in [1..4 -> (-M)..M] : \E i \in 1..4 : q[i] # 0}
(* one of q and -q, and no multiples *)
Rots == {q \in Quats : q = Pos(q) /\ q = Red(q)}
Gens == {<<1, 1, 0, 0>>, <<1, 0, 0, 1>>, <<1, 1, 1, 1>>, <<0, 0, 1, 0>>, <<-1, 0, 1, 0>>}
Steps == {<<0, 0, 0>>, <<1, 0, 0>>, <<0, -1, 2>>}
Axes == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, -1>>, <<2, 2, 1>>, <<-1, 2, 2>>, <<0, 3, 4>>}
Units == {v \in V3(2) : Dot(v, v) = 9} \cup {<<3, 0, 0>>, <<-3, 0, 0>>, <<0, 3, 0>>, <<0, -3, 0>>, <<0, 0, 3>>, <<0, 0, -3>>}
P(x) == Part = x
Near(p) == \A i \in 1..3 : Abs(p[i]) <= M
Vs == {<<1, 2, 3>>, <<-1, 0, 2>>, <<0, 0, 1>>}
Next ==
  \/ P("walk") /\ \/ \E q \in Gens, p \in Steps, f \in {"w_mul", "w_pre", "w_rel"} : Do([op |-> f, q |-> q, p |-> p]) /\ Near(st'.p)
                  \/ Do([op |-> "w_inv"]) \/ Do([op |-> "w_mir"])
  \/ P("vec3") /\ \E a \in V3(1) \cup {<<2, -3, 5>>}, b \in V3(1) \cup {<<-7, 2, 3>>}, s \in {2, -3} : Do([op |-> "vec3", a |-> a, b |-> b, s |-> s])
  \/ P("vec4") /\ \E a \in [1..4 -> {-1, 0, 2}], b \in {<<1, 2, 3, 4>>, <<0, 0, 0, -1>>}, s \in {2, -3} : Do([op |-> "vec4", a |-> a, b |-> b, s |-> s])
  \/ P("vecn") /\ \/ \E n \in 0..M : \E a \in [1..n -> {-1, 0, 2}], b \in [1..n -> {0, 3}] : Do([op |-> "vecn", a |-> a, b |-> b, s |-> 2])
                  \/ \E c \in 1..M, r \in 1..M, k \in {1, 5}, c2 \in 1..M, r2 \in 1..M : Do([op |-> "matn", m |-> [i \in 1..r |-> [j \in 1..c |-> k * i * i - 3 * j]], v |-> [j \in 1..c |-> j + k], c |-> c2, r |-> r2])
                  \/ \E s \in [1..3 -> {1, 2, -3}], v \in Vs : Do([op |-> "scale3", s |-> s, v |-> v])
  \/ P("rot") /\ \/ \E q \in Quats, v \in Vs : Do([op |-> "rot", q |-> q, v |-> v])
                 \/ \E q \in Quats : Do([op |-> "lean", q |-> q])
  \/ P("around") /\ \E q \in Quats, a \in Axes : ~Zero(Twist(q, a)) /\ Do([op |-> "around", q |-> q, a |-> a])
  \/ P("qq") /\ \E q \in Rots, r \in Rots, v \in {<<1, 2, 3>>} : Do([op |-> "qq", q |-> q, r |-> r, v |-> v])
  \/ P("dirs") /\ \E a \in Units, b \in Units : b # Sc(-1, a) /\ Do([op |-> "dirs", a |-> a, b |-> b])
  \/ P("opp") /\ \E a \in Units : Do([op |-> "dirs", a |-> a, b |-> Sc(-1, a)])
  \/ P("euler") /\ \/ \E o \in DOMAIN Orders, k \in [1..3 -> (-M)..M] : Do([op |-> "euler", o |-> o, k |-> k])
                   \/ \E o \in DOMAIN Orders, q \in Rots : Do([op |-> "euler_of", o |-> o, q |-> q])
  \/ P("tf") /\ \/ \E q \in Rots, r \in Gens, p \in Steps, s \in Steps \cup {<<2, 1, -1>>}, v \in Vs : Do([op |-> "tf", q |-> q, p |-> p, r |-> r, s |-> s, v |-> v])
                \/ \E q \in Rots, v \in Vs : Do([op |-> "mirror", q |-> q, v |-> v])
  \/ P("angle") /\ \/ \E a \in {-200, -90, 0, 1, 45, 360}, b \in {-90, 0, 30, 45, 720}, s \in {2, -3} : Do([op |-> "angle", a |-> a, b |-> b, s |-> s])
                   \/ \E k \in (-5)..9 : Do([op |-> "trig", k |-> k])
                   \/ \E k \in (-5)..9 : k % 4 # 2 /\ Do([op |-> "tan", k |-> k])
                   \/ \E d \in V3(1) \cup {<<2, -3, 5>>}, v \in Vs : Do([op |-> "made", d |-> d, v |-> v])
Spec == Init /\ [][Next]_vars
Shown == <<st, IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]>>
View == IF P("walk") THEN <<st, hist = <<>>>> ELSE Shown

----------------------------------------------------------------------------
(* the property *)
Lst == IF hist = <<>> THEN [op |-> "none"] ELSE hist[Len(hist)]
(* lengths, and with them distances and angles, stay the same; products and compositions are carried out one after the other *)
InvRot == Lst.op = "rot" => LET w == Rot(Lst.q, Lst.v) IN Dot(w, w) = N(Lst.q) * N(Lst.q) * Dot(Lst.v, Lst.v) /\ Rot(Conj(Lst.q), w) = Sc(N(Lst.q) * N(Lst.q), Lst.v)
                             /\ Cross(Col(Mat(Lst.q), 1), Col(Mat(Lst.q), 2)) = Sc(N(Lst.q), Col(Mat(Lst.q), 3))
InvProd == Lst.op = "qq" => Rot(QMul(Lst.q, Lst.r), Lst.v) = Rot(Lst.q, Rot(Lst.r, Lst.v)) /\ N(QMul(Lst.q, Lst.r)) = N(Lst.q) * N(Lst.r)
                             /\ QMul(Lst.q, QMul(Conj(Lst.q), Lst.r)) = Sc(N(Lst.q), Lst.r)
(* twist and swing: what is left of a rotation without its part around an axis does not turn around that axis *)
InvTwist == Lst.op = "around" => LET s == QMul(Lst.q, Conj(Twist(Lst.q, Lst.a))) IN Dot(SubSeq(s, 2, 4), Lst.a) = 0
InvMirror == Lst.op = "mirror" => Rot(MirQ(Lst.q), MirV(Lst.v)) = MirV(Rot(Lst.q, Lst.v))
InvDirs == Lst.op = "dirs" /\ Lst.a # Sc(-1, Lst.b) => LET q == <<Dot(Lst.a, Lst.a) + Dot(Lst.a, Lst.b)>> \o Cross(Lst.a, Lst.b) IN Rot(q, Lst.a) = Sc(N(q), Lst.b)
InvWalk == N(st.q) \in {1, 2, 4} /\ Comp(st, Inv(st)) = [InitSt EXCEPT !.q = Sc(1, @)]
InvEuler == Lst.op = "euler" => N(Euler(Lst.o, Lst.k)) \in {1, 2, 4, 8}
EmitEdge == EmitB(hist, hist'[Len(hist')])
=============================================================================
