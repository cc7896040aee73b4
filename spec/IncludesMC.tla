----------------------------- MODULE IncludesMC -----------------------------
(* Every world of a few files with bodies from a menu.                                             *)
EXTENDS Includes
CONSTANTS Names, Bodies, Missing, Rich
VARIABLES w, n
vars == <<w, n>>
NoFile == <<0>>
Names_ == SetToSeq(Names)
Wd(fn) == LET q == SelectSeq(Names_, LAMBDA f : fn[f] # NoFile) IN [i \in DOMAIN q |-> [f |-> q[i], s |-> fn[q[i]]]]
All == Bodies \cup (IF Missing THEN {NoFile} ELSE {})
Init == n = 0 /\ IF Rich THEN w = <<>> ELSE \E fn \in [Names -> All] : w = Wd(fn)
(* long runs: one random world after another; a body is a few pieces *)
Next == /\ Rich /\ n' = n + 1
        /\ LET B == [f \in Names |-> [k \in 1..3 |-> IF RandomElement(1..3) = 1 THEN <<>> ELSE RandomElement(Bodies) \o <<SP>>]] IN
           w' = Wd([f \in Names |-> IF Missing /\ RandomElement(1..12) = 1 THEN NoFile ELSE Cat(B[f])])
Spec == Init /\ [][Next]_vars
D == World(w)
Incs(f) == LET r == LoadZml(D, f) IN IF r.ok THEN Incl(D, DirOf(f), D.files[f]) ELSE <<>>
(* sanity: reading ends, and what it gives has no directive left; a file that reaches itself is never read *)
InvDone == \A f \in Names : LET r == LoadInc(D, f, <<73>>, {}, 0) IN
   r.ok => \A g \in {f} : \A i \in DOMAIN r.n.c : r.n.c[i].k # <<73>>
Ops == LET q == Names_ IN
  Cat([i \in DOMAIN q |-> <<[op |-> "zml", f |-> q[i], ret |-> RetZ(D, q[i])], [op |-> "included", f |-> q[i], fs |-> q, ret |-> IF RetZ(D, q[i]).ok THEN OkV([k \in DOMAIN q |-> Count(Incs(q[i]), q[k])]) ELSE Fail],
                            [op |-> "inc", f |-> q[i], d |-> <<73>>, ret |-> RetInc(D, q[i], <<73>>)]>> \o
                          (IF q[i] \in DOMAIN D.files THEN <<[op |-> "text", s |-> D.files[q[i]], ret |-> RetText(D, D.files[q[i]])]>> ELSE <<>>)])
Emit == (Rich => n > 0) => PrintT("@B" \o ToJson([i |-> [files |-> w], p |-> Ops]))
=============================================================================
