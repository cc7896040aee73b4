------------------------------- MODULE Factory -------------------------------
(* factory<T>: names to creators.  reg maps every registered name to the type it creates; names    *)
(* are numbered in text order (1 is first).  own[r] is the name a live factory_registrant holds    *)
(* (0: no registrant).                                                                             *)
EXTENDS Conf

NR == 2
InitSt == [reg |-> [n \in {} |-> 0], own |-> [r \in 1..NR |-> 0]]

Has(s, n) == n \in DOMAIN s.reg
Add(s, n, t) == [s EXCEPT !.reg = (n :> t) @@ @]
Del(s, n) == [s EXCEPT !.reg = [x \in DOMAIN @ \ {n} |-> @[x]]]
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
(* types: 1 Circle, 2 Square, 3 throws when created, 4 a nested type *)
Made(t, x, y) == IF t = 3 THEN Fail ELSE OkV(<<t, x, y>>)
FirstKey(s, ks) == LET S == {i \in 1..Len(ks) : Has(s, ks[i])} IN IF S = {} THEN -1 ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1

Apply(s, o) ==
  CASE o.op = "register" -> IF Has(s, o.n) THEN R(s, Fail) ELSE R(Add(s, o.n, o.t), Ok)
    [] o.op = "register_default" ->       \* under the type's own name: names 4, 5, 6, 7 of the driver
         IF Has(s, o.t + 3) THEN R(s, Fail) ELSE R(Add(s, o.t + 3, o.t), Ok)
    [] o.op = "unregister" -> IF Has(s, o.n) THEN R(Del(s, o.n), Ok) ELSE R(s, Fail)
    [] o.op = "create" -> R(s, IF Has(s, o.n) THEN Made(s.reg[o.n], o.x, o.y) ELSE Fail)
    [] o.op = "try_create" -> R(s, IF Has(s, o.n) THEN Made(s.reg[o.n], o.x, o.y) ELSE OkV(<<>>))
    [] o.op = "has" -> R(s, OkV(Has(s, o.n)))
    [] o.op = "find_node" -> R(s, OkV(FirstKey(s, o.ks)))
    [] o.op = "registrant" -> IF s.own[o.r] # 0 \/ Has(s, o.n) THEN R(s, Fail) ELSE R([Add(s, o.n, o.t) EXCEPT !.own[o.r] = o.n], Ok)
    [] o.op = "registrant_end" -> IF s.own[o.r] = 0 \/ ~Has(s, s.own[o.r]) THEN R(s, Fail)
                                  ELSE R([Del(s, s.own[o.r]) EXCEPT !.own[o.r] = 0], Ok)
    [] o.op = "copy" -> R(s, Ok)

Obs(s) == [names |-> Sorted(DOMAIN s.reg), empty |-> DOMAIN s.reg = {},
           makes |-> [i \in 1..Cardinality(DOMAIN s.reg) |-> s.reg[Sorted(DOMAIN s.reg)[i]]]]

----------------------------------------------------------------------------
CONSTANTS Names, Types, KeyNames, MaxLen
VARIABLES st, hist
vars == <<st, hist>>
Init == st = InitSt /\ hist = <<>>
Do(o) == LET r == Apply(st, o) IN
  /\ Len(hist) < MaxLen
  /\ st' = r.st
  /\ hist' = Append(hist, o @@ [ret |-> r.ret, obs |-> Obs(r.st)])
X == Len(hist)

DoRegister == \E n \in Names, t \in Types : Do([op |-> "register", n |-> n, t |-> t])
DoDefault == \E t \in Types : (t + 3) \in Names /\ Do([op |-> "register_default", t |-> t])
DoUnregister == \E n \in Names : Do([op |-> "unregister", n |-> n])
DoCreate == \E n \in Names, f \in {"create", "try_create"} : Do([op |-> f, n |-> n, x |-> X, y |-> 7])
DoHas == \E n \in Names : Do([op |-> "has", n |-> n])
DoFind == \E a, b \in KeyNames : \E ks \in {<<>>, <<a>>, <<a, b>>} : Do([op |-> "find_node", ks |-> ks])
DoRegistrant == \E r \in 1..NR, n \in Names, t \in {1} : (r = 1 \/ st.own[1] # 0) /\ Do([op |-> "registrant", r |-> r, n |-> n, t |-> t])
DoEnd == \E r \in 1..NR : Do([op |-> "registrant_end", r |-> r])
DoCopy == Do([op |-> "copy"])
Next == DoRegister \/ DoDefault \/ DoUnregister \/ DoCreate \/ DoHas \/ DoFind \/ DoRegistrant \/ DoEnd \/ DoCopy
Spec == Init /\ [][Next]_vars
View == st
(* a creation or lookup never changes the factory; a name creates one type until it is unregistered *)
InvStable == [][ \A n \in DOMAIN st.reg \cap DOMAIN st'.reg : st'.reg[n] = st.reg[n] ]_vars
EmitEdge == EmitBI([x |-> 0], [i \in 1..(Len(hist') - 1) |-> hist'[i]], hist'[Len(hist')])
EmitRun == Len(hist) = MaxLen => EmitBI([x |-> 0], SubSeq(hist, 1, MaxLen - 1), hist[MaxLen])
=============================================================================
