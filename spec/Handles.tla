------------------------------- MODULE Handles -------------------------------
(* Containers that issue handles: handle_vector, collection and collection_ic.  A handle denotes a *)
(* position.  The state is what a user sees: the elements of the two types the collection holds,   *)
(* and the handles the user keeps (h: position, or -1 for invalid).  den[k] is the element that    *)
(* handle k was last made to denote (0: none, or given up); it exists only to state what handles   *)
(* are for: InvDenotes.                                                                            *)
EXTENDS Conf

NS == 3
InitSt == [a |-> <<>>, b |-> <<>>, h |-> <<-1, -1, -1>>, den |-> <<0, 0, 0>>]

N(s) == Len(s.a)
Valid(s, k) == s.h[k] >= 0 /\ s.h[k] < N(s)
Point(s, k, p) == [s EXCEPT !.h[k] = p, !.den[k] = IF p >= 0 /\ p < N(s) THEN s.a[p + 1] ELSE 0]
Keep(s, P(_)) == [s EXCEPT !.den = [k \in 1..NS |-> IF P(s.h[k]) THEN @[k] ELSE 0]]   \* handles that need no update
Without(q, i, j) == SubSeq(q, 1, i) \o SubSeq(q, j + 1, Len(q))                       \* positions i..j-1 removed

Position(q, v) == LET S == {i \in 1..Len(q) : q[i] = v} IN IF S = {} THEN -1 ELSE (CHOOSE i \in S : \A x \in S : i <= x) - 1
PositionFrom(q, v, f) == LET S == {i \in (f + 1)..Len(q) : q[i] = v} IN IF S = {} THEN -1 ELSE (CHOOSE i \in S : \A x \in S : i <= x) - 1

(* an index of n bits: out of range means invalid, never another index *)
Idx8(n) == IF n >= 0 /\ n <= 254 THEN n ELSE -1

Apply(s, o) ==
  LET n == N(s) IN
  CASE o.op \in {"push", "push_move", "emplace"} ->
         LET t == Point([s EXCEPT !.a = Append(@, o.v)], o.k, n) IN R(t, OkV(n))
    [] o.op = "push_b" -> R([s EXCEPT !.b = Append(@, o.v)], OkV(Len(s.b)))
    [] o.op = "pop_b" -> IF s.b = <<>> THEN R(s, Fail) ELSE R([s EXCEPT !.b = SubSeq(@, 1, Len(@) - 1)], Ok)
    [] o.op \in {"get", "cget"} -> IF Valid(s, o.k) THEN R(s, OkV(s.a[s.h[o.k] + 1])) ELSE R(s, Fail)
    [] o.op = "set" -> IF ~Valid(s, o.k) THEN R(s, Fail)
                       ELSE LET p == s.h[o.k] + 1 IN
                            R([s EXCEPT !.a[p] = o.v, !.den = [k \in 1..NS |-> IF @[k] # 0 /\ @[k] = s.a[p] THEN o.v ELSE @[k]]], Ok)
    [] o.op = "erase" -> IF ~Valid(s, o.k) THEN R(s, Fail)
                         ELSE LET p == s.h[o.k]
                                  t == Keep([s EXCEPT !.a = Without(s.a, p, p + 1)], LAMBDA x : x < p) IN R(t, OkV(p))
    [] o.op = "erase_span" -> IF o.i > o.j \/ o.j > n THEN R(s, Fail)
                              ELSE R(Keep([s EXCEPT !.a = Without(s.a, o.i, o.j)], LAMBDA x : x < o.i), OkV(o.i))
    [] o.op = "erase_update" ->      \* erase a span, then tell every handle where the elements behind it went
         IF o.i > o.j \/ o.j > n THEN R(s, Fail)
         ELSE R([s EXCEPT !.a = Without(s.a, o.i, o.j),
                          !.h = [k \in 1..NS |-> IF s.h[k] >= o.j /\ s.h[k] < n THEN s.h[k] - o.j + o.i
                                                 ELSE IF s.h[k] >= o.i /\ s.h[k] < o.j THEN -1 ELSE s.h[k]],
                          !.den = [k \in 1..NS |-> IF s.h[k] >= o.i /\ s.h[k] < o.j THEN 0 ELSE s.den[k]]], OkV(o.i))
    [] o.op = "pop_back" -> IF n = 0 THEN R(s, Fail)
                            ELSE R(Keep([s EXCEPT !.a = SubSeq(@, 1, n - 1)], LAMBDA x : x < n - 1), Ok)
    [] o.op = "clear" -> R([s EXCEPT !.a = <<>>, !.b = <<>>, !.den = <<0, 0, 0>>], Ok)
    [] o.op = "find" -> LET p == Position(s.a, o.v) IN R(Point(s, o.k, p), OkV(p))
    [] o.op = "find_from" -> IF o.i > n THEN R(s, Fail) ELSE LET p == PositionFrom(s.a, o.v, o.i) IN R(Point(s, o.k, p), OkV(p))
    [] o.op = "at" -> IF o.i > n THEN R(s, Fail)                    \* handle of an iterator; the end gives an invalid one
                      ELSE R(Point(s, o.k, IF o.i = n THEN -1 ELSE o.i), Ok)
    [] o.op = "handle_of" -> IF o.i >= n THEN R(s, Fail) ELSE R(Point(s, o.k, o.i), OkV(o.i))
    [] o.op = "back_handle" -> R(Point(s, o.k, n - 1), OkV(n - 1))
    [] o.op = "copy" -> R([s EXCEPT !.h[o.t] = s.h[o.k], !.den[o.t] = s.den[o.k]], Ok)
    [] o.op = "move" -> IF o.k = o.t THEN R(s, Fail)                \* move-construct t from k; k becomes invalid
                        ELSE R([s EXCEPT !.h[o.t] = s.h[o.k], !.den[o.t] = s.den[o.k], !.h[o.k] = -1, !.den[o.k] = 0], Ok)
    [] o.op = "move_assign" -> IF o.k = o.t THEN R(s, Fail)         \* k is then reset by the user
                               ELSE R([s EXCEPT !.h[o.t] = s.h[o.k], !.den[o.t] = s.den[o.k], !.h[o.k] = -1, !.den[o.k] = 0], Ok)
    [] o.op = "reset_h" -> R([s EXCEPT !.h[o.k] = -1, !.den[o.k] = 0], Ok)
    [] o.op = "idx8" -> R(s, OkV(CASE o.f = "size" -> Idx8(o.n) [] o.f = "int" -> Idx8(o.n)
                                   [] o.f = "plus" -> Idx8(o.n + o.m) [] o.f = "minus" -> Idx8(o.n - o.m)
                                   [] o.f = "inc" -> Idx8(o.n + 1) [] o.f = "back" -> Idx8(o.n - 1) [] o.f = "end" -> Idx8(o.n)))

InvDenotes(s) == \A k \in 1..NS : s.den[k] # 0 => (Valid(s, k) /\ s.a[s.h[k] + 1] = s.den[k])

(* elements by position, by iteration, and through the container's span of handles; the kept       *)
(* handles: their positions, whether they say they are valid, whether the container and its span   *)
(* say it contains them, and how the first two compare                                             *)
Obs(s) == [a |-> s.a, it |-> s.a, span |-> s.a, b |-> s.b, n |-> N(s), empty |-> N(s) = 0,
           h |-> s.h, val |-> [k \in 1..NS |-> s.h[k] >= 0], in |-> [k \in 1..NS |-> Valid(s, k)],
           beyond |-> [k \in 1..NS |-> ~Valid(s, k)], endh |-> N(s),
           eq |-> s.h[1] = s.h[2], lt |-> s.h[1] # s.h[2] /\ s.h[1] # -1 /\ (s.h[2] = -1 \/ s.h[1] < s.h[2])]

----------------------------------------------------------------------------
CONSTANTS Kind, MaxSize, MaxLen
VARIABLES st, hist
vars == <<st, hist>>
Init == st = InitSt /\ hist = <<>>

Do(o) == LET r == Apply(st, o) IN
  /\ Len(hist) < MaxLen
  /\ st' = r.st
  /\ hist' = Append(hist, o @@ [ret |-> r.ret, obs |-> Obs(r.st)])

V == Len(hist) + 1
K == 1..NS
Room == N(st) < MaxSize

DoPush == Room /\ \E k \in K, f \in {"push", "push_move"} \cup (IF Kind = "vec" THEN {"emplace"} ELSE {}) : Do([op |-> f, v |-> V, k |-> k])
DoPushB == Kind # "vec" /\ Len(st.b) < 1 /\ Do([op |-> "push_b", v |-> V])
DoPopB == Kind # "vec" /\ Do([op |-> "pop_b"])
DoGet == \E k \in K, f \in {"get", "cget"} : Do([op |-> f, k |-> k])
DoSet == \E k \in K : Valid(st, k) /\ Do([op |-> "set", k |-> k, v |-> V])
DoErase == \E k \in K : Valid(st, k) /\ Do([op |-> "erase", k |-> k])
DoEraseSpan == Kind # "ic" /\ \E i, j \in 0..N(st) : i <= j /\ Do([op |-> "erase_span", i |-> i, j |-> j])
DoEraseUpdate == Kind # "ic" /\ \E i, j \in 0..N(st) : i <= j /\ Do([op |-> "erase_update", i |-> i, j |-> j])
DoPopBack == Do([op |-> "pop_back"])
DoClear == Do([op |-> "clear"])
DoFind == Kind = "vec" /\ \E k \in K, v \in Range(st.a) \cup {99} : Do([op |-> "find", v |-> v, k |-> k])
DoFindFrom == Kind = "vec" /\ \E v \in Range(st.a), i \in 0..N(st) : Do([op |-> "find_from", v |-> v, i |-> i, k |-> 1])
DoAt == \E k \in K, i \in 0..N(st) : Kind = "vec" /\ Do([op |-> "at", i |-> i, k |-> k])
DoHandleOf == \E k \in K, i \in 0..(MaxSize - 1) : i < N(st) /\ Do([op |-> "handle_of", i |-> i, k |-> k])
DoBackHandle == Do([op |-> "back_handle", k |-> 2])
DoCopyMove == \E k, t \in K, f \in {"copy", "move", "move_assign"} : k # t /\ Do([op |-> f, k |-> k, t |-> t])
DoReset == \E k \in K : Do([op |-> "reset_h", k |-> k])
DoIdx == Kind = "ic" /\ st = InitSt /\
         \/ \E n \in {0, 1, 5, 253, 254, 255, 256, 257, 300, 511, 512} : \E f \in {"size", "int"} : Do([op |-> "idx8", f |-> f, n |-> n])
         \/ \E n \in {-1, -2, -255, -256} : Do([op |-> "idx8", f |-> "int", n |-> n])
         \/ \E n \in {0, 1, 254}, m \in {0, 1, 2, 250, 254} : \E f \in {"plus", "minus"} : Do([op |-> "idx8", f |-> f, n |-> n, m |-> m])
         \/ \E n \in {0, 1, 253, 254} : \E f \in {"inc", "back"} : (f = "inc" \/ n < 254) /\ Do([op |-> "idx8", f |-> f, n |-> n])
         \/ \E n \in {0, 3, 254} : Do([op |-> "idx8", f |-> "end", n |-> n])

Next == \/ DoPush \/ DoPushB \/ DoPopB \/ DoGet \/ DoSet \/ DoErase \/ DoEraseSpan \/ DoEraseUpdate \/ DoPopBack \/ DoClear
        \/ DoFind \/ DoFindFrom \/ DoAt \/ DoHandleOf \/ DoBackHandle \/ DoCopyMove \/ DoReset \/ DoIdx
Spec == Init /\ [][Next]_vars
Shape == <<N(st), Len(st.b), st.h, [k \in K |-> st.den[k] # 0]>>
InvD == InvDenotes(st)
EmitEdge == EmitBI([kind |-> Kind], [i \in 1..(Len(hist') - 1) |-> hist'[i]], hist'[Len(hist')])
EmitRun == Len(hist) = MaxLen => EmitBI([kind |-> Kind], SubSeq(hist, 1, MaxLen - 1), hist[MaxLen])
=============================================================================
