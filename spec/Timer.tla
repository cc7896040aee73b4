-------------------------------- MODULE Timer -------------------------------
(* Timers, stopwatches and interval checkers over a clock that only `tick` moves.  A timer has     *)
(* collected acc in its earlier running intervals; since: the start of the running one.  A         *)
(* stopwatch adds the time since the last split to the split that is due.                          *)
EXTENDS Text

NT == 2
InitSt == [now |-> 0, t |-> [k \in 1..NT |-> [run |-> TRUE, acc |-> 0, since |-> 0]],
           sw |-> [since |-> 0, cur |-> 0, names |-> <<>>, times |-> <<>>], ch |-> [k \in 1..NT |-> [int |-> 2, prev |-> 0]]]
Elapsed(s, k) == s.t[k].acc + (IF s.t[k].run THEN s.now - s.t[k].since ELSE 0)
Start(s, v) == [run |-> TRUE, acc |-> v, since |-> s.now]
Rest(v) == [run |-> FALSE, acc |-> v, since |-> 0]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))

(* the text of a time of v milliseconds: whole seconds from a minute on, or from `hide` seconds on, or without decimals *)
RECURSIVE NatC(_)
NatC(n) == IF n < 10 THEN <<48 + n>> ELSE NatC(n \div 10) \o <<48 + (n % 10)>>
Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Pow10(d) == CASE d = 0 -> 1 [] d = 1 -> 10 [] d = 2 -> 100 [] OTHER -> 1000
Dec(n, d) == [i \in 1..d |-> 48 + ((n \div Pow10(d - i)) % 10)]
TimeText(v, d, hide) ==
  LET s == v \div 1000
      h == s \div 3600
      m == (s % 3600) \div 60
      r == s % 60
      u == 1000 \div Pow10(Min2(d, 3))                 \* one unit of the last decimal, in milliseconds
      n == (v + (u \div 2)) \div u IN                    \* rounded
  IF h > 0 THEN NatC(h) \o <<58>> \o Two(m) \o <<58>> \o Two(r)
  ELSE IF m > 0 THEN NatC(m) \o <<58>> \o Two(r)
  ELSE IF d <= 0 \/ s >= hide THEN <<48, 58>> \o Two(r)
  ELSE NatC(n \div Pow10(Min2(d, 3))) \o <<46>> \o Dec(n % Pow10(Min2(d, 3)), Min2(d, 3)) \o [i \in 1..Max2(0, d - 3) |-> 48]
Tie(v, d) == d \in 1..2 /\ v % (1000 \div Pow10(d)) = 1000 \div (2 * Pow10(d))

Apply(s, o) ==
  CASE o.op = "tick" -> R([s EXCEPT !.now = @ + o.d], Ok)
    [] o.op = "new" -> R([s EXCEPT !.t[o.k] = IF o.start THEN Start(s, 0) ELSE Rest(0)], Ok)
    [] o.op = "pause" -> R([s EXCEPT !.t[o.k] = Rest(Elapsed(s, o.k))], OkV(Elapsed(s, o.k)))
    [] o.op = "resume" -> R([s EXCEPT !.t[o.k] = Start(s, Elapsed(s, o.k))], Ok)
    [] o.op = "restart" -> R([s EXCEPT !.t[o.k] = Start(s, 0)], OkV(Elapsed(s, o.k)))
    [] o.op = "set" -> R([s EXCEPT !.t[o.k] = IF @.run THEN Start(s, o.v) ELSE Rest(o.v)], Ok)
    [] o.op = "copy" -> R([s EXCEPT !.t[o.t] = s.t[o.k]], Ok)
    [] o.op = "scoped" -> LET u == [s EXCEPT !.t[o.k] = Rest(Elapsed(s, o.k) + o.d), !.now = @ + o.d] IN R(u, OkV(Elapsed(u, o.k)))
    [] o.op = "sw_new" -> R([s EXCEPT !.sw = [since |-> s.now, cur |-> 0, names |-> <<>>, times |-> <<>>]], Ok)
    [] o.op = "sw_restart" -> R([s EXCEPT !.sw.since = s.now, !.sw.cur = 0], Ok)
    [] o.op = "sw_clear" -> R([s EXCEPT !.sw = [since |-> s.now, cur |-> 0, names |-> <<>>, times |-> <<>>]], Ok)
    [] o.op = "sw_split" -> LET d == s.now - s.sw.since
                                c == s.sw.cur + 1
                                w == [s.sw EXCEPT !.since = s.now, !.cur = c] IN
         R([s EXCEPT !.sw = IF c > Len(w.times) THEN [w EXCEPT !.names = Append(@, o.n), !.times = Append(@, d)] ELSE [w EXCEPT !.times[c] = @ + d]], Ok)
    [] o.op = "sw_report" -> R(s, OkV([i \in 1..(Len(s.sw.times) + 1) |->       \* read in milliseconds
                                 IF i <= Len(s.sw.times) THEN [n |-> s.sw.names[i], t |-> TimeText(s.sw.times[i], 3, 10)]
                                 ELSE [n |-> "TOTAL", t |-> TimeText(Sum(s.sw.times), 3, 10)]]))
    [] o.op = "ch_new" -> R([s EXCEPT !.ch[o.k] = [int |-> o.d, prev |-> 0]], Ok)
    [] o.op = "ch" -> LET f == s.now - s.ch[o.k].prev >= s.ch[o.k].int IN R([s EXCEPT !.ch[o.k].prev = IF f THEN s.now ELSE @], OkV(f))
    [] o.op = "text" -> R(s, OkV(TimeText(o.v, o.d, o.hide)))
    (* a time from n seconds, milliseconds, nanoseconds or thousandths of a second: whole milliseconds and the rest *)
    [] o.op = "from" -> R(s, OkV([ms |-> CASE o.f = "s" -> o.n * 1000 [] o.f = "ns" -> o.n \div 1000000 [] OTHER -> o.n,
                                  rest |-> IF o.f = "ns" THEN o.n % 1000000 ELSE 0]))
    [] o.op = "conv" -> R(s, OkV([s |-> o.n, ms |-> o.n * 1000]))                  \* a time of n seconds in whole seconds and milliseconds
    [] o.op = "arith" -> R(s, OkV([add |-> o.a + o.b, sub |-> o.a - o.b, neg |-> -o.a, dist |-> IF o.a > o.b THEN o.a - o.b ELSE o.b - o.a,
                                   lt |-> o.a < o.b, le |-> o.a <= o.b, gt |-> o.a > o.b, ge |-> o.a >= o.b, eq |-> o.a = o.b, ne |-> o.a # o.b]))

    (* a time of s seconds and n nanoseconds, or the opposite: as nanoseconds, and made from whole seconds, milliseconds and nanoseconds *)
    [] o.op = "big" -> R(s, OkV([ns |-> <<o.s, o.n>>, ms |-> <<o.s, (o.n \div 1000000) * 1000000>>, sec |-> <<o.s, 0>>]))
    [] o.op = "div" -> R(s, OkV([q |-> IF o.a < 0 THEN -((-o.a) \div o.n) ELSE o.a \div o.n, mul |-> o.a * o.n, ratio |-> o.a, zero |-> o.a = 0]))
    [] o.op = "units" -> R(s, OkV([minute |-> 60 * o.n, hour |-> 3600 * o.n, day |-> 86400 * o.n, year |-> 31536000 * o.n, s |-> o.n, ms |-> o.n, ns |-> o.n]))

Obs(s) == [e |-> [k \in 1..NT |-> Elapsed(s, k)], ticks |-> [k \in 1..NT |-> Elapsed(s, k)], run |-> [k \in 1..NT |-> s.t[k].run],
           paused |-> [k \in 1..NT |-> ~s.t[k].run], names |-> s.sw.names, times |-> s.sw.times, n |-> Len(s.sw.times)]

----------------------------------------------------------------------------
CONSTANTS Part, MaxNow, MaxLen, Ds, Unit
VARIABLES st, hist, ran    \* ran[k]: how long timer k ran since it was made, restarted or set, plus what it was set to
vars == <<st, hist, ran>>
Init == st = InitSt /\ hist = <<>> /\ ran = [k \in 1..NT |-> 0]
Do(o) == LET r == Apply(st, o) IN
  /\ Len(hist) < MaxLen
  /\ st' = r.st
  /\ hist' = Append(hist, o @@ [ret |-> r.ret, obs |-> Obs(r.st)])
  /\ ran' = [k \in 1..NT |-> CASE o.op = "tick" -> IF st.t[k].run THEN ran[k] + o.d ELSE ran[k]
                               [] o.op = "scoped" -> IF k = o.k \/ st.t[k].run THEN ran[k] + o.d ELSE ran[k]
                               [] o.op \in {"new", "restart"} /\ k = o.k -> 0
                               [] o.op = "set" /\ k = o.k -> o.v
                               [] o.op = "copy" /\ k = o.t -> ran[o.k]
                               [] OTHER -> ran[k]]
K == IF Part = "timer1" THEN {1} ELSE 1..NT
Tick == \E d \in Ds : st.now + d <= MaxNow /\ Do([op |-> "tick", d |-> d])
TimerNext == \/ Tick
             \/ \E k \in K, b \in BOOLEAN : Do([op |-> "new", k |-> k, start |-> b])
             \/ \E k \in K, f \in {"pause", "resume", "restart"} : Do([op |-> f, k |-> k])
             \/ \E k \in K, v \in Ds \cup {0} : Do([op |-> "set", k |-> k, v |-> v])
             \/ \E k, t \in K : k # t /\ Do([op |-> "copy", k |-> k, t |-> t])
             \/ \E k \in K, d \in Ds : st.now + d <= MaxNow /\ Do([op |-> "scoped", k |-> k, d |-> d])
WatchNext == \/ Tick
             \/ \E n \in {"a", "b"} : Len(st.sw.times) + (IF st.sw.cur < Len(st.sw.times) THEN 0 ELSE 1) <= 2 /\ Do([op |-> "sw_split", n |-> n])
             \/ \E f \in {"sw_new", "sw_restart", "sw_clear", "sw_report"} : Do([op |-> f])
CheckNext == \/ Tick
             \/ \E k \in K : Do([op |-> "ch", k |-> k])
             \/ \E k \in K, d \in Ds \cup {0} : Do([op |-> "ch_new", k |-> k, d |-> d])
CalcNext == \/ \E neg \in BOOLEAN, x \in {0, 1, 9007199, 9007200, 1999999999, 2147483647}, n \in {0, 1, 254740993, 500000001, 999999999} : Do([op |-> "big", neg |-> neg, s |-> x, n |-> n])
            \/ \E a \in -7..7 \cup {-1000001, 999999}, n \in {1, 2, 3, 10} : Do([op |-> "div", a |-> a, n |-> n])
            \/ \E n \in {0, 1, 2, 24, 59, 68} : Do([op |-> "units", n |-> n])
            \/ \E n \in {-200000, -1001, -1, 0, 1, 999, 86400} : Do([op |-> "conv", n |-> n]) \/ Do([op |-> "from", f |-> "s", n |-> n])
            \/ \E a, b \in -2..2 : Do([op |-> "arith", a |-> a, b |-> b])
            \/ \E v \in {0, 1, 10, 999, 1000, 9999, 10000, 59999, 60000, 60001, 3599999, 3600000, 86399999, 86400000}, d \in {3, 6}, h \in {0, 10, 100} : Do([op |-> "text", v |-> v, d |-> d, hide |-> h])
Next == CASE Part = "calc" -> CalcNext [] Part = "watch" -> WatchNext [] Part = "check" -> CheckNext [] OTHER -> TimerNext
Spec == Init /\ [][Next]_vars
InvRan == \A k \in 1..NT : Elapsed(st, k) = ran[k]
(* an interval checker never fires twice within its interval *)
InvSw == st.sw.cur <= Len(st.sw.times) /\ Sum(st.sw.times) + (st.now - st.sw.since) <= st.now
Rel(k) == IF st.t[k].run THEN <<TRUE, Elapsed(st, k)>> ELSE <<FALSE, st.t[k].acc>>
Shape == <<IF Part = "check" THEN st.now ELSE 0, [k \in 1..NT |-> Rel(k)], [st.sw EXCEPT !.since = st.now - @], st.ch, ran>>
EmitEdge == EmitBI([unit |-> Unit], [i \in 1..(Len(hist') - 1) |-> hist'[i]], hist'[Len(hist')])
EmitRun == Len(hist) = MaxLen => EmitBI([unit |-> Unit], SubSeq(hist, 1, MaxLen - 1), hist[MaxLen])
=============================================================================
