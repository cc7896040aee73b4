------------------------------- MODULE MemoEv -------------------------------
(* What callers of a memoized function may observe: calls and returns of the memoized function,    *)
(* and the calls of the wrapped function that it makes.  Step(s, e) is the set of states after     *)
(* event e, empty when e is not allowed.                                                           *)
(*   mem    argument -> result, from the moment the wrapped function has returned it               *)
(*   known  arguments whose computing call has returned to its caller                              *)
(*   fr     per thread the stack of unfinished calls: [a, ph, v], ph in called/computing/done/threw*)
EXTENDS Conf

InitSt(nt) == [mem |-> [a \in {} |-> 0], known |-> {}, fr |-> [t \in 1..nt |-> <<>>]]
Top(s, t) == s.fr[t][Len(s.fr[t])]
SetTop(s, t, f) == [s EXCEPT !.fr[t][Len(s.fr[t])] = f]
Pop(s, t) == [s EXCEPT !.fr[t] = SubSeq(@, 1, Len(@) - 1)]
Computing(s, a) == \E t \in DOMAIN s.fr : \E i \in 1..Len(s.fr[t]) : s.fr[t][i].a = a /\ s.fr[t][i].ph = "computing"

If(c, s) == IF c THEN {s} ELSE {}
Step(s, e) ==
  LET busy == s.fr[e.t] # <<>>
      f == Top(s, e.t) IN
  CASE e.op = "call" -> {[s EXCEPT !.fr[e.t] = Append(@, [a |-> e.a, ph |-> "called", v |-> 0])]}
    [] e.op = "begin" -> If(busy /\ f.ph = "called" /\ f.a = e.a /\ e.a \notin DOMAIN s.mem /\ ~Computing(s, e.a),
                            SetTop(s, e.t, [f EXCEPT !.ph = "computing"]))
    [] e.op = "end" -> If(busy /\ f.ph = "computing" /\ f.a = e.a,
                          SetTop([s EXCEPT !.mem = (e.a :> e.v) @@ @], e.t, [f EXCEPT !.ph = "done", !.v = e.v]))
    [] e.op = "throw" -> If(busy /\ f.ph = "computing" /\ f.a = e.a, SetTop(s, e.t, [f EXCEPT !.ph = "threw"]))
    [] e.op = "ret" -> If(busy /\ (\/ f.ph = "done" /\ e.v = f.v
                                   \/ f.ph = "called" /\ f.a \in DOMAIN s.mem /\ e.v = s.mem[f.a]),
                          Pop([s EXCEPT !.known = @ \cup {f.a}], e.t))
    [] e.op = "exc" -> If(busy /\ f.ph = "threw", Pop(s, e.t))
    [] e.op = "size_call" -> {[s EXCEPT !.fr[e.t] = Append(@, [a |-> -1, ph |-> "size", v |-> Cardinality(s.known)])]}
    [] e.op = "size_ret" -> If(busy /\ f.ph = "size" /\ e.v >= f.v /\ e.v <= Cardinality(DOMAIN s.mem), Pop(s, e.t))
    \* at the end: everything has returned, the size is exact and no returned reference has changed
    [] e.op = "final" -> If((\A t \in DOMAIN s.fr : s.fr[t] = <<>>) /\ e.v = Cardinality(DOMAIN s.mem) /\ e.stable, s)
    [] OTHER -> {}
=============================================================================
