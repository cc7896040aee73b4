------------------------------ MODULE ZmlTrees ------------------------------
(* Every small tree that ZML can denote is written and read back (by the specification and by the code). *)
EXTENDS Zml
CONSTANTS K, V, MaxNodes, Emits, Alpha, StrLen
VARIABLE st
RECURSIVE Count(_), Places(_)
Count(n) == 1 + (LET f[i \in 0..Len(n.c)] == IF i = 0 THEN 0 ELSE f[i - 1] + Count(n.c[i].n) IN f[Len(n.c)])
Places(n) == {<<>>} \cup UNION {{<<i>> \o q : q \in Places(n.c[i].n)} : i \in DOMAIN n.c}

Strs == UNION {[1..m -> Alpha] : m \in 0..StrLen}
Leafs(ks) == N(<<>>, ks)
z == Kid(<<122>>, N(<<49>>, <<>>))
aa == <<97>>
(* every string as a key, as a value, in an array, in a nested group and next to other items *)
StringTrees == {Leafs(<<Kid(aa, N(s, <<>>)), z>>) : s \in Strs} \cup {Leafs(<<Kid(s, N(aa, <<>>)), z>>) : s \in Strs}
   \cup {Leafs(<<Kid(aa, N(<<>>, <<Kid(<<>>, N(s, <<>>)), Kid(<<>>, N(s, <<>>))>>)), z>>) : s \in Strs}
   \cup {Leafs(<<Kid(s, N(s, <<Kid(s, N(s, <<>>))>>)), z>>) : s \in Strs}
Init == st \in (IF StrLen = 0 THEN {Empty} ELSE StringTrees)
Add == /\ StrLen = 0 /\ Count(st) < MaxNodes
       /\ \E p \in Places(st), k \in K, v \in V :
            st' = NPut(st, p, [NAt(st, p) EXCEPT !.c = Append(@, Kid(k, N(v, <<>>)))])
SetV == /\ StrLen = 0 /\ \E p \in Places(st) \ {<<>>}, v \in V : /\ NAt(st, p).c # <<>> /\ st' = NPut(st, p, [NAt(st, p) EXCEPT !.v = v])
Next == Add \/ SetV
Spec == Init /\ [][Next]_st

InvRound == DocOK(st) => \A w \in {WConcise(<<>>, st, 0), WPretty(<<>>, st, 0)} : LET r == Parse(w) IN r.ok /\ r.n = st
Rnd(w) == [op |-> "round", n |-> st, w |-> w, ret |-> OkV(st)]
Emit == DocOK(st) => EmitSeq(<<Rnd("pretty"), Rnd("concise"), [op |-> "parse", s |-> WConcise(<<>>, st, 0), ret |-> OkV(st)],
                               [op |-> "parse", s |-> WPretty(<<>>, st, 0), ret |-> OkV(st)]>> \o (IF Emits = "files" THEN <<Rnd("file"), Rnd("save_file"), Rnd("factory")>> ELSE <<>>))
=============================================================================
