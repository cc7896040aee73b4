----------------------------- MODULE CircDeque -----------------------------
(* circular_deque: a double-ended queue kept in a ring.  The state has two levels: q is the queue  *)
(* a user sees; (buf, front) is the ring that represents it, moved the way the code moves it.      *)
(* Refines states that the ring always represents the queue.                                       *)
EXTENDS Conf

InsertAt1(s, i, v) == SubSeq(s, 1, i - 1) \o <<v>> \o SubSeq(s, i, Len(s))     \* v becomes element i

InitSt(cap) == [q |-> <<>>, buf |-> [i \in 1..cap |-> 0], front |-> 0]

Cap(s) == Len(s.buf)
RingAt(s, i) == s.buf[((s.front + i) % Cap(s)) + 1]          \* i is 0-based
RingSeq(s) == [i \in 1..Len(s.q) |-> RingAt(s, i - 1)]
Refines(s) == RingSeq(s) = s.q

PushBack(s, v) ==
  IF Len(s.q) = Cap(s)
  THEN [q |-> Append(s.q, v),
        buf |-> IF s.front = 0 THEN Append(s.buf, v) ELSE InsertAt1(s.buf, s.front + 1, v),
        front |-> IF s.front = 0 THEN 0 ELSE s.front + 1]
  ELSE [q |-> Append(s.q, v),
        buf |-> [s.buf EXCEPT ![((s.front + Len(s.q)) % Cap(s)) + 1] = v],
        front |-> s.front]

PushFront(s, v) ==
  IF Len(s.q) = Cap(s)
  THEN [q |-> <<v>> \o s.q, buf |-> InsertAt1(s.buf, s.front + 1, v), front |-> s.front]
  ELSE LET f == (s.front + Cap(s) - 1) % Cap(s)
       IN [q |-> <<v>> \o s.q, buf |-> [s.buf EXCEPT ![f + 1] = v], front |-> f]

Reserve(s, n) ==
  IF n <= Cap(s) THEN s
  ELSE [q |-> s.q, front |-> 0,
        buf |-> [i \in 1..n |-> IF i <= Cap(s) THEN s.buf[((s.front + i - 1) % Cap(s)) + 1] ELSE 0]]

Apply(s, o) ==
  LET n == Len(s.q) IN
  CASE o.op = "push_back" -> R(PushBack(s, o.v), Ok)
    [] o.op = "push_front" -> R(PushFront(s, o.v), Ok)
    [] o.op = "push_back_alias" -> IF n = 0 THEN R(s, Fail) ELSE R(PushBack(s, s.q[1]), Ok)
    [] o.op = "push_front_alias" -> IF n = 0 THEN R(s, Fail) ELSE R(PushFront(s, s.q[n]), Ok)
    [] o.op = "pop_back" -> IF n = 0 THEN R(s, Fail) ELSE R([s EXCEPT !.q = SubSeq(s.q, 1, n - 1)], Ok)
    [] o.op = "pop_front" -> IF n = 0 THEN R(s, Fail)
                             ELSE R([s EXCEPT !.q = Tail(s.q), !.front = (s.front + 1) % Cap(s)], Ok)
    [] o.op = "front" -> IF n = 0 THEN R(s, Fail) ELSE R(s, OkV(s.q[1]))
    [] o.op = "back" -> IF n = 0 THEN R(s, Fail) ELSE R(s, OkV(s.q[n]))
    [] o.op = "cfront" -> IF n = 0 THEN R(s, Fail) ELSE R(s, OkV(s.q[1]))
    [] o.op = "cback" -> IF n = 0 THEN R(s, Fail) ELSE R(s, OkV(s.q[n]))
    [] o.op = "clear" -> R([s EXCEPT !.q = <<>>, !.front = 0], Ok)
    [] o.op = "reserve" -> R(Reserve(s, o.n), Ok)
    [] o.op = "set" -> IF o.i >= n THEN R(s, Fail)
                       ELSE R([s EXCEPT !.q[o.i + 1] = o.v, !.buf[((s.front + o.i) % Cap(s)) + 1] = o.v], Ok)
    [] o.op = "copy" -> R(s, Ok)

(* what the driver reports after every call: the queue by index, by iteration (mutable, const,     *)
(* stepping and offset), its size, and whether full() agrees with size and capacity                *)
Obs(s) == [size |-> Len(s.q), empty |-> Len(s.q) = 0, at |-> s.q, cat |-> s.q, it |-> s.q, cit |-> s.q,
           off |-> s.q, dist |-> Len(s.q), capok |-> TRUE]

----------------------------------------------------------------------------
CONSTANTS MaxCap, InitCaps, MaxSize, MaxLen
VARIABLES st, hist, cap0

vars == <<st, hist, cap0>>
Init == /\ cap0 \in InitCaps /\ st = InitSt(cap0) /\ hist = <<>>

Do(o) == LET r == Apply(st, o) IN
  /\ Len(hist) < MaxLen
  /\ st' = r.st
  /\ hist' = Append(hist, o @@ [ret |-> r.ret, obs |-> Obs(r.st)])
  /\ UNCHANGED cap0

NewV == Len(hist) + 1          \* every pushed value is new: elements are distinguishable

DoPushBack == Len(st.q) < MaxSize /\ Do([op |-> "push_back", v |-> NewV])
DoPushFront == Len(st.q) < MaxSize /\ Do([op |-> "push_front", v |-> NewV])
DoPushBackAlias == Len(st.q) < MaxSize /\ Do([op |-> "push_back_alias"])
DoPushFrontAlias == Len(st.q) < MaxSize /\ Do([op |-> "push_front_alias"])
DoPopBack == Do([op |-> "pop_back"])
DoPopFront == Do([op |-> "pop_front"])
DoFront == Do([op |-> "front"]) \/ Do([op |-> "cfront"])
DoBack == Do([op |-> "back"]) \/ Do([op |-> "cback"])
DoClear == Do([op |-> "clear"])
DoReserve == \E n \in 0..MaxCap : Do([op |-> "reserve", n |-> n])
DoSet == \E i \in 0..(MaxSize - 1) : i < Len(st.q) /\ Do([op |-> "set", i |-> i, v |-> NewV])
DoCopy == Do([op |-> "copy"])

Next == \/ DoPushBack \/ DoPushFront \/ DoPushBackAlias \/ DoPushFrontAlias \/ DoPopBack \/ DoPopFront
        \/ DoFront \/ DoBack \/ DoClear \/ DoReserve \/ DoSet \/ DoCopy
Spec == Init /\ [][Next]_vars

(* the shape of the ring is the state; the values in it are data *)
Shape == <<Len(st.q), Len(st.buf), st.front>>

InvRefines == Refines(st)
InvCap == Len(st.q) <= Cap(st)

EmitEdge == EmitBI([cap |-> cap0], [i \in 1..(Len(hist') - 1) |-> hist'[i]], hist'[Len(hist')])
EmitRun == Len(hist) = MaxLen => EmitBI([cap |-> cap0], SubSeq(hist, 1, MaxLen - 1), hist[MaxLen])
=============================================================================
