-------------------------------- MODULE Stop --------------------------------
(* Stop sources, stop tokens and interruptible objects.  A source or token refers to a stop state  *)
(* (0: none); req[i]: a stop was requested of state i.  Sources and tokens are values: a copy      *)
(* refers to the same state, a moved-from one to none.  ints[k]: object k was interrupted.         *)
EXTENDS Conf
CONSTANTS NSrc, NTok, NInt, MaxState, MaxLen

InitSt == [src |-> [k \in 1..NSrc |-> k], tok |-> [k \in 1..NTok |-> 0], req |-> [k \in 1..NSrc |-> FALSE], ints |-> [k \in 1..NInt |-> FALSE]]
Req(s, i) == i # 0 /\ s.req[i]

Apply(s, o) ==
  CASE o.op = "new_source" -> R([s EXCEPT !.src[o.k] = Len(s.req) + 1, !.req = Append(@, FALSE)], Ok)
    [] o.op \in {"copy_source", "assign_source"} -> R([s EXCEPT !.src[o.t] = s.src[o.k]], Ok)
    [] o.op \in {"move_source", "move_assign_source"} -> R([s EXCEPT !.src[o.t] = s.src[o.k], !.src[o.k] = 0], Ok)
    [] o.op = "get_token" -> R([s EXCEPT !.tok[o.t] = s.src[o.k]], Ok)
    [] o.op = "new_token" -> R([s EXCEPT !.tok[o.k] = 0], Ok)
    [] o.op \in {"copy_token", "assign_token"} -> R([s EXCEPT !.tok[o.t] = s.tok[o.k]], Ok)
    [] o.op \in {"move_token", "move_assign_token"} -> R([s EXCEPT !.tok[o.t] = s.tok[o.k], !.tok[o.k] = 0], Ok)
    [] o.op = "request" -> IF s.src[o.k] = 0 THEN R(s, OkV(-999)) ELSE R([s EXCEPT !.req[s.src[o.k]] = TRUE], OkV(-999))
    [] o.op = "new_int" -> R([s EXCEPT !.ints[o.k] = FALSE], Ok)
    [] o.op = "interrupt" -> R([s EXCEPT !.ints[o.k] = TRUE], Ok)
    [] o.op \in {"copy_int", "assign_int"} -> R([s EXCEPT !.ints[o.t] = s.ints[o.k]], Ok)

Obs(s) == [sr |-> [k \in 1..NSrc |-> Req(s, s.src[k])], sp |-> [k \in 1..NSrc |-> s.src[k] # 0],
           tr |-> [k \in 1..NTok |-> Req(s, s.tok[k])], tp |-> [k \in 1..NTok |-> s.tok[k] # 0], ints |-> s.ints]

VARIABLES st, hist
vars == <<st, hist>>
Init == st = InitSt /\ hist = <<>>
Do(o) == LET r == Apply(st, o) IN
  /\ Len(hist) < MaxLen
  /\ st' = r.st
  /\ hist' = Append(hist, o @@ [ret |-> r.ret, obs |-> Obs(r.st)])
S == 1..NSrc
T == 1..NTok
I == 1..NInt
Next == \/ \E w \in BOOLEAN : \/ \E k \in S : (Len(st.req) < MaxState /\ Do([op |-> "new_source", k |-> k, w |-> w])) \/ Do([op |-> "request", k |-> k, w |-> w])
                              \/ \E k \in I : Do([op |-> "new_int", k |-> k, w |-> w]) \/ Do([op |-> "interrupt", k |-> k, w |-> w])
        \/ \E k, t \in S, f \in {"copy_source", "assign_source", "move_source", "move_assign_source"} : k # t /\ Do([op |-> f, k |-> k, t |-> t, w |-> FALSE])
        \/ \E k \in S, t \in T : Do([op |-> "get_token", k |-> k, t |-> t, w |-> FALSE])
        \/ \E k \in T : Do([op |-> "new_token", k |-> k, w |-> FALSE])
        \/ \E k, t \in T, f \in {"copy_token", "assign_token", "move_token", "move_assign_token"} : k # t /\ Do([op |-> f, k |-> k, t |-> t, w |-> FALSE])
        \/ \E k, t \in I, f \in {"copy_int", "assign_int"} : k # t /\ Do([op |-> f, k |-> k, t |-> t, w |-> FALSE])
Spec == Init /\ [][Next]_vars
(* a stop request is never taken back, and reaches exactly the holders of that state *)
Forever == [][\A i \in DOMAIN st.req : st.req[i] => st'.req[i]]_vars
Reaches == [][\A i \in DOMAIN st'.req \ (IF Len(st'.req) > Len(st.req) THEN {Len(st'.req)} ELSE {}) : st'.req[i] # st.req[i] =>
                 \A t \in T : Obs(st').tr[t] # Obs(st).tr[t] => st.tok[t] = i]_vars
(* names of states do not matter *)
Shape == LET ids == {i \in 1..Len(st.req) : \E k \in S : st.src[k] = i} \cup {i \in 1..Len(st.req) : \E k \in T : st.tok[k] = i}
             Nr(i) == IF i = 0 THEN 0 ELSE Cardinality({j \in ids : j <= i}) IN
         <<[k \in S |-> Nr(st.src[k])], [k \in T |-> Nr(st.tok[k])], [k \in S |-> Req(st, st.src[k])], [k \in T |-> Req(st, st.tok[k])], st.ints, Len(st.req)>>
EmitEdge == EmitB([i \in 1..(Len(hist') - 1) |-> hist'[i]], hist'[Len(hist')])
EmitRun == Len(hist) = MaxLen => EmitB(SubSeq(hist, 1, MaxLen - 1), hist[MaxLen])
=============================================================================
