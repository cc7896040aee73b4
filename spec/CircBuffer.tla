----------------------------- MODULE CircBuffer -----------------------------
(* circular_buffer: a delay line of `frames` frames with `channels` values each.  The frame being  *)
(* written is the back; advance() starts a new one and, when every frame is in use, drops the      *)
(* oldest; the front is the oldest frame kept.  Written frames come out unchanged, oldest first.   *)
EXTENDS Conf
U == -999                                   \* a cell nothing was written to: not observed

Frame(n) == [i \in 1..n |-> U]
(* w: frames kept, oldest first, the last one is the back *)
InitSt(f, c) == [f |-> f, c |-> c, w |-> <<Frame(c)>>]
InitZero(f, c) == [f |-> f, c |-> c, w |-> <<[i \in 1..c |-> 0]>>]

Back(s) == s.w[Len(s.w)]
SetCell(s, i, v) == [s EXCEPT !.w[Len(s.w)][i + 1] = v]

Advance(s) == LET n == IF Len(s.w) = s.f THEN Tail(s.w) ELSE s.w
              IN [s EXCEPT !.w = Append(n, Frame(s.c))]
CanResize(s) == Len(s.w) = 1 
Resize(s, f, c) == [f |-> f, c |-> c,
   w |-> <<[i \in 1..c |-> IF i <= s.c /\ f > 0 /\ s.f > 0 THEN s.w[1][i] ELSE U]>>]

Apply(s, o) ==
  CASE o.op = "set" -> R(SetCell(s, o.i, o.v), Ok)
    [] o.op = "set_back" -> R(SetCell(s, o.i, o.v), Ok)
    [] o.op = "advance" -> R(Advance(s), Ok)
    [] o.op = "clear_back" -> R([s EXCEPT !.w[Len(s.w)] = [i \in 1..s.c |-> o.v]], Ok)
    [] o.op = "reset_buffer" -> R(InitZero(s.f, s.c), Ok)
    [] o.op = "resize" -> IF CanResize(s) THEN R(Resize(s, o.f, o.c), Ok) ELSE R(s, Fail)
    [] o.op = "add_channel" -> IF CanResize(s) THEN R(Resize(s, s.f, s.c + 1), OkV(s.c)) ELSE R(s, Fail)
    [] o.op = "add_frame" -> IF CanResize(s) THEN R(Resize(s, s.f + 1, s.c), OkV(s.f)) ELSE R(s, Fail)

Obs(s) == [cap |-> s.f, empty |-> Len(s.w) = 1,
           front |-> IF s.f > 0 THEN s.w[1] ELSE <<>>, get |-> IF s.f > 0 THEN s.w[1] ELSE <<>>,
           back |-> IF s.f > 0 THEN Back(s) ELSE <<>>]
Match(e, g) == Len(e) = Len(g) /\ \A i \in DOMAIN e : e[i] = U \/ e[i] = g[i]
ObsMatch(e, g) == e.cap = g.cap /\ e.empty = g.empty /\ Match(e.front, g.front) /\ Match(e.get, g.get) /\ Match(e.back, g.back)

----------------------------------------------------------------------------
CONSTANTS MaxF, MaxC, MaxLen
VARIABLES st, hist, i0, ghost

vars == <<st, hist, i0, ghost>>
(* ghost: every frame ever completed since the last reset, in order *)
Init == \E f \in 1..MaxF, c \in 1..MaxC : /\ i0 = [f |-> f, c |-> c] /\ st = InitSt(f, c) /\ hist = <<>> /\ ghost = <<>>

Do(o) == LET r == Apply(st, o) IN
  /\ Len(hist) < MaxLen /\ st' = r.st
  /\ hist' = Append(hist, o @@ [ret |-> r.ret, obs |-> Obs(r.st)])
  /\ ghost' = CASE o.op = "advance" -> Append(ghost, Back(st)) [] o.op = "reset_buffer" -> <<>> [] OTHER -> ghost
  /\ UNCHANGED i0
V == Len(hist) + 1
Usable == st.f > 0 /\ st.c > 0
DoSet == Usable /\ \E i \in 0..(st.c - 1) : Do([op |-> "set", i |-> i, v |-> V])
DoSetBack == Usable /\ \E i \in 0..(st.c - 1) : Do([op |-> "set_back", i |-> i, v |-> V])
DoAdvance == Usable /\ Do([op |-> "advance"])
DoClearBack == Usable /\ Do([op |-> "clear_back", v |-> V])
DoResetBuf == Do([op |-> "reset_buffer"])
DoResize == st.f > 1 /\ \E f \in 1..MaxF, c \in 1..MaxC : Do([op |-> "resize", f |-> f, c |-> c])
DoAddChannel == st.c < MaxC /\ st.f > 1 /\ Do([op |-> "add_channel"])
DoAddFrame == st.f < MaxF /\ st.f > 1 /\ Do([op |-> "add_frame"])
Next == DoSet \/ DoSetBack \/ DoAdvance \/ DoClearBack \/ DoResetBuf \/ DoResize \/ DoAddChannel \/ DoAddFrame
Spec == Init /\ [][Next]_vars

(* which cells are written is state; the values are data *)
Shape == <<st.f, st.c, [k \in 1..Len(st.w) |-> [i \in 1..st.c |-> st.w[k][i] = U]], Len(hist) < MaxLen>>

(* frames come out in the order written, the oldest kept first, at most f of them *)
InvFifo == LET k == Len(st.w) - 1 IN
  /\ Len(st.w) <= Max2(st.f, 1)
  /\ k <= Len(ghost)
  /\ \A j \in 1..k : Len(st.w[j]) = Len(ghost[Len(ghost) - k + j]) => st.w[j] = ghost[Len(ghost) - k + j]
EmitEdge == EmitBI(i0, [i \in 1..(Len(hist') - 1) |-> hist'[i]], hist'[Len(hist')])
EmitRun == Len(hist) = MaxLen => EmitBI(i0, SubSeq(hist, 1, MaxLen - 1), hist[MaxLen])
=============================================================================
