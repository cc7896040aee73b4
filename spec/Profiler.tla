------------------------------- MODULE Profiler -----------------------------
(* The profiler: one node per distinct call path.  nodes: name, parent (0: none), total time and   *)
(* number of completed entries; node 1 is the run itself.  stack: the sections that are open, with *)
(* the times at which they were entered.  Times are in milliseconds of a clock only `tick` moves.  *)
EXTENDS Conf

InitSt == [now |-> 0, on |-> FALSE, nodes |-> <<>>, stack |-> <<>>]
Node(n, p) == [name |-> n, parent |-> p, total |-> 0, count |-> 0]
Top(s) == s.stack[Len(s.stack)]
Kids(s, i) == {j \in DOMAIN s.nodes : s.nodes[j].parent = i}
RECURSIVE SumTotal(_, _)
SumTotal(s, S) == IF S = {} THEN 0 ELSE LET j == CHOOSE x \in S : TRUE IN s.nodes[j].total + SumTotal(s, S \ {j})
Excl(s, i) == s.nodes[i].total - SumTotal(s, Kids(s, i))
Leave(s, i, since) == [s EXCEPT !.nodes[i].total = @ + s.now - since, !.nodes[i].count = @ + 1]
Stopped(s) == IF ~s.on THEN s ELSE [Leave(s, 1, s.stack[1].since) EXCEPT !.on = FALSE, !.stack = <<>>]

(* the level tag of a section by its share of the whole *)
Tag(s, i) == LET e == 100 * Excl(s, i) r == s.nodes[1].total IN
             IF e < r THEN "@2" ELSE IF e < 5 * r THEN "@3" ELSE IF e < 15 * r THEN "@4" ELSE "@5"
(* percentages are printed with two decimals: the printed hundredths p of the share a of r *)
Near(p, a, r) == p = -999 \/ (2 * (p * r - 10000 * a) <= r + 2 /\ 2 * (10000 * a - p * r) <= r + 2)
Shown(s, i, min) == 100 * s.nodes[i].total >= min * s.nodes[1].total

(* a report r of section i and what is below it; subsections are shown from `min` per cent on, longest first *)
RECURSIVE NodeOk(_, _, _, _, _)
NodeOk(s, i, r, min, tag) ==
  LET kids == IF Shown(s, i, min) THEN Kids(s, i) ELSE {}
      n == s.nodes[i] IN
  /\ r.name = (IF tag THEN Tag(s, i) \o n.name ELSE n.name)
  /\ r.ms = n.total /\ r.count = n.count
  /\ Near(r.perc, n.total, s.nodes[1].total) /\ Near(r.excl, Excl(s, i), s.nodes[1].total)
  /\ r.avg = -999 \/ (IF Excl(s, i) >= n.count THEN r.avg = 999999
                     ELSE 2 * (r.avg * n.count - 1000000 * Excl(s, i)) <= n.count /\ 2 * (1000000 * Excl(s, i) - r.avg * n.count) <= n.count)
  /\ Len(r.ch) = Cardinality(kids)
  /\ \A a, b \in DOMAIN r.ch : a < b => r.ch[a].ms >= r.ch[b].ms
  /\ \A j \in kids : \E a \in DOMAIN r.ch : NodeOk(s, j, r.ch[a], min, tag)
ReportOk(s, o, v) == IF s.nodes = <<>> THEN v = <<>> ELSE Len(v) = 1 /\ NodeOk(s, 1, v[1], o.min, o.tag)

(* one report that is allowed, with the free parts left open *)
RECURSIVE Rep(_, _, _, _)
Rep(s, i, min, tag) ==
  LET K == IF Shown(s, i, min) THEN Kids(s, i) ELSE {}
      q == SetToSortSeq(K, LAMBDA a, b : s.nodes[a].total > s.nodes[b].total \/ (s.nodes[a].total = s.nodes[b].total /\ a < b)) IN
  [name |-> IF tag THEN Tag(s, i) \o s.nodes[i].name ELSE s.nodes[i].name, ms |-> s.nodes[i].total, count |-> s.nodes[i].count,
   perc |-> -999, excl |-> -999, avg |-> -999, ch |-> [a \in DOMAIN q |-> Rep(s, q[a], min, tag)]]
Ties(s) == \E a, b \in DOMAIN s.nodes : a # b /\ s.nodes[a].parent = s.nodes[b].parent /\ s.nodes[a].total = s.nodes[b].total

Apply(s, o) ==
  CASE o.op = "tick" -> R([s EXCEPT !.now = @ + o.d], Ok)
    [] o.op = "start" -> IF s.on THEN R(s, Fail)
                         ELSE R([s EXCEPT !.on = TRUE, !.nodes = <<Node(o.name, 0)>>, !.stack = <<[id |-> 1, since |-> s.now]>>], Ok)
    [] o.op = "enter" -> IF ~s.on THEN R(s, Ok)
         ELSE LET p == Top(s).id
                  K == {j \in Kids(s, p) : s.nodes[j].name = o.name}
                  i == IF K = {} THEN Len(s.nodes) + 1 ELSE CHOOSE j \in K : TRUE IN
              R([s EXCEPT !.nodes = IF K = {} THEN Append(@, Node(o.name, p)) ELSE @, !.stack = Append(@, [id |-> i, since |-> s.now])], Ok)
    [] o.op = "leave" -> IF ~s.on THEN R(s, Ok)
                         ELSE R([Leave(s, Top(s).id, Top(s).since) EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)], Ok)
    [] o.op = "stop" -> IF ~s.on \/ Len(s.stack) # 1 THEN R(s, Fail) ELSE R(Stopped(s), Ok)
    [] o.op = "report" -> IF s.on /\ Len(s.stack) # 1 THEN R(s, Fail)
                          ELSE LET t == Stopped(s) IN R(t, OkV(IF t.nodes = <<>> THEN <<>> ELSE <<Rep(t, 1, o.min, o.tag)>>))
Obs(s) == [on |-> s.on]
(* a report, and whatever else the call returns, is as the specification allows *)
Matches(s, o, ret) == LET r == Apply(s, o) IN
   IF o.op = "report" /\ r.ret.ok THEN ret.ok /\ ReportOk(r.st, o, ret.v) ELSE ret = r.ret

----------------------------------------------------------------------------
CONSTANTS Names, Ds, MaxNow, MaxNodes, MaxDepth, MaxLen
VARIABLES st, hist
vars == <<st, hist>>
Init == st = InitSt /\ hist = <<>>
Do(o) == LET r == Apply(st, o) IN
  /\ Len(hist) < MaxLen
  /\ st' = r.st
  /\ hist' = Append(hist, o @@ [ret |-> r.ret, obs |-> Obs(r.st)])
Room(n) == Len(st.nodes) < MaxNodes \/ \E j \in Kids(st, Top(st).id) : st.nodes[j].name = n
DoTick == \E d \in Ds : st.now + d <= MaxNow /\ Do([op |-> "tick", d |-> d])
DoStart == st.nodes = <<>> /\ Do([op |-> "start", name |-> "TOTAL"])
DoStartOn == st.on /\ Do([op |-> "start", name |-> "TOTAL"])
DoEnter == \E n \in Names : st.on /\ Room(n) /\ Len(st.stack) <= MaxDepth /\ Do([op |-> "enter", name |-> n])
DoLeave == st.on /\ Len(st.stack) > 1 /\ Do([op |-> "leave"])
DoStop == Do([op |-> "stop"])
CanReport == IF st.on THEN (IF Len(st.stack) # 1 THEN TRUE ELSE LET t == Stopped(st) IN t.nodes[1].total > 0 /\ ~Ties(t))
             ELSE IF st.nodes = <<>> THEN TRUE ELSE (st.nodes[1].total > 0 /\ ~Ties(st))
DoReport == \E m \in {0, 30}, t \in BOOLEAN : CanReport /\ Do([op |-> "report", min |-> m, tag |-> t])
DoRestart == ~st.on /\ st.nodes # <<>> /\ st.now < MaxNow /\ Do([op |-> "start", name |-> "AGAIN"])
Next == DoTick \/ DoStart \/ DoStartOn \/ DoEnter \/ DoLeave \/ DoStop \/ DoReport \/ DoRestart
Spec == Init /\ [][Next]_vars
(* the time of a section covers that of its subsections: all its time once it is left *)
Open(i) == \E k \in DOMAIN st.stack : st.stack[k].id = i
InvCover == \A i \in DOMAIN st.nodes : ~Open(i) => Excl(st, i) >= 0
InvPaths == \A a, b \in DOMAIN st.nodes : a # b => <<st.nodes[a].name, st.nodes[a].parent>> # <<st.nodes[b].name, st.nodes[b].parent>>
InvReport == CanReport /\ Stopped(st).nodes # <<>> /\ (~st.on \/ Len(st.stack) = 1) => LET t == Stopped(st) IN
   \A tag \in BOOLEAN : ReportOk(t, [min |-> 0, tag |-> tag], <<Rep(t, 1, 0, tag)>>)
Shape == <<st.on, st.nodes, [k \in DOMAIN st.stack |-> <<st.stack[k].id, st.now - st.stack[k].since>>], IF st.on THEN 0 ELSE Min2(MaxNow - st.now, 1)>>
EmitEdge == EmitB([i \in 1..(Len(hist') - 1) |-> hist'[i]], hist'[Len(hist')])
EmitRun == Len(hist) = MaxLen => EmitB(SubSeq(hist, 1, MaxLen - 1), hist[MaxLen])
=============================================================================
