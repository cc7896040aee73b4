-------------------------------- MODULE LogEv --------------------------------
(* What users of the logging system may observe while several threads log and change the sinks.    *)
(* Step(s, e): the states after event e, empty when e is not allowed.                              *)
(*   regs[k], lvls[k], owns[k]  the values that "is registered", "level" and "thread it listens to *)
(*            (0: all)" of sink k may have now: one value, or more while an operation is running   *)
(*   pend     running operations on sinks: thread, which of the three, sink, new value, and the    *)
(*            values of operations on the same thing that ended meanwhile                          *)
(*   fr[t]    the running message, test or flush of thread t: may / must: the sinks that were      *)
(*            interested at some time / all the time; got: sinks that received it; regd: sinks     *)
(*            registered all the time; fl: sinks flushed since the message was given out           *)
(*   busy     <<thread, sink>> for each sink that is handling a message                            *)
(*   out[k]   for a sink that writes lines: per thread its messages in order, and whether each     *)
(*            must be there                                                                        *)
EXTENDS Conf

NoFr == [kind |-> "none", id |-> 0, lvl |-> 0, may |-> {}, must |-> {}, got |-> {}, regd |-> {}, fl |-> {}]
If(c, s) == IF c THEN {s} ELSE {}
Put(s, kind, k, v) == CASE kind = "reg" -> [s EXCEPT !.regs[k] = v] [] kind = "lvl" -> [s EXCEPT !.lvls[k] = v] [] OTHER -> [s EXCEPT !.owns[k] = v]
Val(s, kind, k) == CASE kind = "reg" -> s.regs[k] [] kind = "lvl" -> s.lvls[k] [] OTHER -> s.owns[k]

InitSt(nt, sinks) ==
  [regs |-> [k \in DOMAIN sinks |-> {TRUE}], lvls |-> [k \in DOMAIN sinks |-> {sinks[k].l}], owns |-> [k \in DOMAIN sinks |-> {0}],
   lines |-> {k \in DOMAIN sinks : sinks[k].kind # "rec"}, pend |-> {}, fr |-> [t \in 1..nt |-> NoFr], busy |-> {},
   out |-> [k \in DOMAIN sinks |-> [t \in 1..nt |-> <<>>]]]

(* a sink may / must be interested in a message of thread t at level l now *)
May(s, t, l) == {k \in DOMAIN s.regs : TRUE \in s.regs[k] /\ (\E x \in s.lvls[k] : l >= x) /\ s.owns[k] \cap {0, t} # {}}
Must(s, t, l) == {k \in DOMAIN s.regs : s.regs[k] = {TRUE} /\ (\A x \in s.lvls[k] : l >= x) /\ s.owns[k] \subseteq {0, t}}
Reg(s) == {k \in DOMAIN s.regs : s.regs[k] = {TRUE}}
Look(s) == [s EXCEPT !.fr = [t \in DOMAIN @ |-> IF @[t].kind = "none" THEN @[t]
                             ELSE [@[t] EXCEPT !.may = @ \cup May(s, t, s.fr[t].lvl), !.must = @ \cap Must(s, t, s.fr[t].lvl), !.regd = @ \cap Reg(s)]]]
Begin(s, t, kind, id, l) ==
  If(s.fr[t].kind = "none", [s EXCEPT !.fr[t] = [kind |-> kind, id |-> id, lvl |-> l, may |-> May(s, t, l), must |-> Must(s, t, l),
                                                 got |-> {}, regd |-> Reg(s), fl |-> {}]])

(* operations on sinks *)
OpCall(s, t, kind, k, v) ==
  {Look(Put([s EXCEPT !.pend = @ \cup {[t |-> t, kind |-> kind, k |-> k, v |-> v, alt |-> {}]}], kind, k, Val(s, kind, k) \cup {v}))}
OpRet(s, t) ==
  LET P == {p \in s.pend : p.t = t}
      p == CHOOSE p \in P : TRUE
      same == {q \in s.pend \ P : q.kind = p.kind /\ q.k = p.k}
      rest == {IF q \in same THEN [q EXCEPT !.alt = @ \cup {p.v}] ELSE q : q \in s.pend \ P} IN
  If(P # {} /\ (p.kind = "reg" /\ ~p.v /\ same = {} /\ TRUE \notin p.alt => \A b \in s.busy : b[2] # p.k),
     Look(Put([s EXCEPT !.pend = rest], p.kind, p.k, {p.v} \cup p.alt \cup {q.v : q \in same})))

(* lines: the numbers of the messages in the order written, -1 for a line that is no whole message *)
LinesOk(s, k, lines) ==
  /\ \A i \in DOMAIN lines : lines[i] # -1
  /\ \A i, j \in DOMAIN lines : i # j => lines[i] # lines[j]
  /\ \A i \in DOMAIN lines : \E t \in DOMAIN s.out[k] : \E j \in DOMAIN s.out[k][t] : s.out[k][t][j].id = lines[i]
  /\ \A t \in DOMAIN s.out[k] : LET m == s.out[k][t] IN
       LET mine == SelectSeq(lines, LAMBDA x : \E j \in DOMAIN m : m[j].id = x) IN
       mine = SelectSeq([j \in DOMAIN m |-> m[j].id], LAMBDA x : \E i \in DOMAIN mine : mine[i] = x)
  /\ \A t \in DOMAIN s.out[k] : \A j \in DOMAIN s.out[k][t] : s.out[k][t][j].sure => \E i \in DOMAIN lines : lines[i] = s.out[k][t][j].id

Step(s, e) ==
  CASE e.op = "msg" -> Begin(s, e.t, IF e.fl THEN "msgf" ELSE "msg", e.id, e.l)
    [] e.op = "test" -> Begin(s, e.t, "test", 0, e.l)
    [] e.op = "flush_call" -> Begin(s, e.t, "flush", 0, 0)
    [] e.op = "deliver" ->
         LET f == s.fr[e.t] IN
         If(f.kind \in {"msg", "msgf"} /\ e.id = f.id /\ e.whole /\ e.l = f.lvl /\ e.s \in f.may /\ e.s \notin f.got /\ TRUE \in s.regs[e.s],
            [s EXCEPT !.fr[e.t] = [f EXCEPT !.got = @ \cup {e.s}, !.fl = @ \ {e.s}], !.busy = @ \cup {<<e.t, e.s>>}])
    [] e.op = "handled" -> If(<<e.t, e.s>> \in s.busy, [s EXCEPT !.busy = @ \ {<<e.t, e.s>>}])
    [] e.op = "flushed" -> If(s.fr[e.t].kind \in {"msgf", "flush"} /\ TRUE \in s.regs[e.s], [s EXCEPT !.fr[e.t].fl = @ \cup {e.s}])
    [] e.op = "ret" ->
         LET f == s.fr[e.t]
             L == s.lines IN
         If(/\ f.kind # "none"
            /\ f.kind \in {"msg", "msgf"} => f.must \ L \subseteq f.got
            /\ f.kind \in {"msgf", "flush"} => f.regd \ L \subseteq f.fl
            /\ f.kind = "test" => (e.v /\ f.may # {}) \/ (~e.v /\ f.must = {}),
            [s EXCEPT !.fr[e.t] = NoFr,
                      !.out = IF f.kind \in {"msg", "msgf"}
                              THEN [k \in DOMAIN @ |-> IF k \in L /\ k \in f.may
                                                       THEN [@[k] EXCEPT ![e.t] = Append(@, [id |-> f.id, sure |-> k \in f.must])] ELSE @[k]]
                              ELSE @])
    [] e.op = "add" -> OpCall(s, e.t, "reg", e.s, TRUE)
    [] e.op = "rem" -> OpCall(s, e.t, "reg", e.s, FALSE)
    [] e.op = "lvl" -> OpCall(s, e.t, "lvl", e.s, e.l)
    [] e.op = "mode" -> OpCall(s, e.t, "own", e.s, IF e.all THEN 0 ELSE e.t)
    [] e.op = "done" -> OpRet(s, e.t)
    [] e.op = "get" -> If(e.l \in s.lvls[e.s], s)
    [] e.op = "lines" -> If(LinesOk(s, e.s, e.lines), s)
    [] e.op = "final" -> If(\A t \in DOMAIN s.fr : s.fr[t].kind = "none", s)
    [] OTHER -> {}
=============================================================================
