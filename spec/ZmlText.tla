------------------------------- MODULE ZmlText ------------------------------
(* Texts: (1) every sequence of pieces after some openings; (2) a machine that writes ZML item by    *)
(* item and keeps the tree it means; the reader must find exactly that tree.                        *)
EXTENDS Zml
CONSTANTS Mode, Pieces, Openings, MaxPieces, MaxSteps, Keys, Vals, Macros, EmitAll, Rich
VARIABLES txt, n,          \* the text so far, number of pieces or steps
          doc, scopes, mac \* what it means: tree, open scopes [kind, at, m, defs], macros in scope
vars == <<txt, n, doc, scopes, mac>>
Top == scopes[Len(scopes)]
Root0 == [kind |-> "doc", at |-> [i |-> 1, p |-> <<>>], m |-> 0, name |-> <<>>]
Init == /\ n = 0 /\ doc = <<Empty>> /\ scopes = <<Root0>> /\ mac = <<>>
        /\ txt \in (IF Mode = "pieces" THEN Openings ELSE {<<>>})

Piece == /\ Mode = "pieces" /\ n < MaxPieces /\ \E p \in Pieces : txt' = txt \o p
         /\ n' = n + 1 /\ UNCHANGED <<doc, scopes, mac>>

(* ---- writing items ---- *)
Here == Top.at
Node == RAt(doc, Here)
InArray == Top.kind = "array"
(* long runs choose at random, the exhaustive graph tries everything in one plain style *)
Pick(S) == IF Rich /\ S # {} THEN {RandomElement(S)} ELSE S
AllStyles(v) == {Quoted(v)} \cup (IF ~NeedsQuotes(v, Special) THEN {v} ELSE {}) \cup
             (IF ~Has(v, APOS) /\ ~Has(v, BSL) /\ \A i \in DOMAIN v : v[i] > 31 THEN {<<APOS>> \o v \o <<APOS>>} ELSE {}) \cup
             (IF Len(v) > 1 /\ ~NeedsQuotes(v, Special) THEN {<<v[1]>> \o Quoted(SubSeq(v, 2, Len(v)))} ELSE {})
Styles(v) == IF Rich THEN Pick(AllStyles(v)) ELSE {TryQuoted(v, Special)}
AllSeps == {<<SP>>, <<NL>>, <<SP, 35, 97, 123, 61, NL>>, <<SP, 47, 42, 93, 125, NL, 42, 47>>, <<TAB, 47, 47, 34, NL, SP>>}
Seps == IF Rich THEN Pick(AllSeps) ELSE {<<SP>>}
AllEqs == {<<61>>, <<SP, 61, SP>>, <<58, SP>>, <<SP, 58, SP>>}
Eqs == IF Rich THEN Pick(AllEqs) ELSE {<<61>>}
W(t) == n' = n + 1 /\ txt' = txt \o t
Go == Mode = "means" /\ n < MaxSteps
NewKid(k, x) == RPut(doc, Here, [Node EXCEPT !.c = Append(@, Kid(k, x))])
NewAt == Kth(Here, Len(Node.c) + 1)
(* label (or nothing in an array), value text, node it stands for *)
PutItem(k, w, x) ==
  \E sp \in Seps :
    /\ \/ InArray /\ W(w \o sp) /\ doc' = NewKid(<<>>, x)
       \/ ~InArray /\ \E ks \in Styles(k), eq \in Eqs : W(ks \o eq \o w \o sp) /\ doc' = NewKid(k, x)
    /\ UNCHANGED <<scopes, mac>>
Item == Go /\ \E k \in Pick(Keys), v \in Pick(Vals) : \E w \in Styles(v) : PutItem(k, w, N(v, <<>>))
MacroUse == Go /\ \E k \in Pick(Keys), m \in Pick(Macros) : LET i == LastMacro(mac, m) IN i > 0 /\ PutItem(k, m, mac[i].n)
InlineUse == Go /\ \E k \in Pick(Keys), m \in Pick(Macros), v \in Pick(Vals) : LET i == LastMacro(mac, m) IN
    i > 0 /\ v # <<>> /\ PutItem(k, Quoted(v \o <<DOLLAR, 123>> \o SubSeq(m, 2, Len(m)) \o <<125>> \o v), N(v \o mac[i].n.v \o v, <<>>))
RefUse == Go /\ Len(doc) = 1 /\ \E k \in Pick(Keys), i \in DOMAIN doc[1].c, j \in 0..2 :
    LET c == doc[1].c[i] r == IF j = 0 THEN doc[1].c[FirstKey(doc[1], c.k)].n ELSE doc[1].c[i].n.c[j].n IN
    /\ ~(IF j = 0 THEN Len(Here.p) > 0 /\ Here.p[1] = i ELSE Len(Here.p) > 1 /\ Here.p[1] = i /\ Here.p[2] = j)   \* not an enclosing one
    /\ c.k # <<>> /\ FirstKey(doc[1], c.k) = i /\ ~Has(c.k, 46)
    /\ j > 0 => (j <= Len(c.n.c) /\ c.n.c[j].k # <<>> /\ FirstKey(c.n, c.n.c[j].k) = j /\ ~Has(c.n.c[j].k, 46))
    /\ PutItem(k, Quoted(<<AT>> \o c.k \o (IF j = 0 THEN <<>> ELSE <<46>> \o c.n.c[j].k)), r)
Open(kind, k, v) ==   \* label, optional value, then { or [
    LET br == IF kind = "array" THEN <<91>> ELSE <<123>>
        head == IF InArray THEN <<>> ELSE TryQuoted(k, Special) \o (IF v = <<>> THEN <<SP>> ELSE <<61>> \o TryQuoted(v, Special) \o <<SP>>)
    IN /\ W(head \o br \o <<SP>>) /\ doc' = NewKid(IF InArray THEN <<>> ELSE k, N(IF InArray THEN <<>> ELSE v, <<>>))
       /\ scopes' = Append(scopes, [kind |-> kind, at |-> NewAt, m |-> Len(mac), name |-> <<>>])
       /\ UNCHANGED mac
OpenNew == Go /\ Len(scopes) < 4 /\ \E kind \in Pick({"group", "array"}), k \in Pick(Keys), v \in Pick(Vals) : (InArray => v = <<>>) /\ Open(kind, k, v)
Continue == Go /\ ~InArray /\ Len(scopes) < 4 /\ Len(Node.c) > 0 /\ \E kind \in Pick({"group", "array"}) :   \* more for the last item
    /\ W(IF kind = "array" THEN <<91>> ELSE <<123, NL>>)
    /\ scopes' = Append(scopes, [kind |-> kind, at |-> Kth(Here, Len(Node.c)), m |-> Len(mac), name |-> <<>>])
    /\ UNCHANGED <<doc, mac>>
MacroDef == Go /\ ~InArray /\ \E m \in Pick(Macros), v \in Pick(Vals) : \E w \in Styles(v) :
    W(m \o <<61>> \o w \o <<NL>>) /\ mac' = Append(mac, Kid(m, N(v, <<>>))) /\ UNCHANGED <<doc, scopes>>
MacroOpen == Go /\ ~InArray /\ Len(scopes) < 4 /\ \E m \in Pick(Macros), kind \in Pick({"group", "array"}) :
    /\ W(m \o <<SP>> \o (IF kind = "array" THEN <<91>> ELSE <<123>>) \o <<SP>>)
    /\ doc' = Append(doc, Empty) /\ UNCHANGED mac
    /\ scopes' = Append(scopes, [kind |-> kind, at |-> [i |-> Len(doc) + 1, p |-> <<>>], m |-> Len(mac), name |-> m])
Close == Go /\ Len(scopes) > 1 /\ \E sp \in {<<>>, <<NL>>} :
    /\ W((IF InArray THEN <<93>> ELSE <<125>>) \o sp)
    /\ scopes' = SubSeq(scopes, 1, Len(scopes) - 1)
    /\ LET M == SubSeq(mac, 1, Top.m) IN
       IF Top.name = <<>> THEN mac' = M /\ UNCHANGED doc
       ELSE mac' = Append(M, Kid(Top.name, doc[Top.at.i])) /\ doc' = SubSeq(doc, 1, Len(doc) - 1)
Next == Piece \/ Item \/ MacroUse \/ InlineUse \/ RefUse \/ OpenNew \/ Continue \/ MacroDef \/ MacroOpen \/ Close
Spec == Init /\ [][Next]_vars

Closers == LET f[i \in 1..Len(scopes)] == IF i = 1 THEN <<>> ELSE (IF scopes[i].kind = "array" THEN <<93>> ELSE <<125>>) \o f[i - 1] IN f[Len(scopes)]
(* the reader finds the meaning, and only when everything is closed *)
InvMeaning == Mode = "means" =>
   /\ LET r == Parse(txt \o Closers) IN r.ok /\ (Len(scopes) = 1 \/ r.n = doc[1])
   /\ Len(scopes) = 1 => Parse(txt).n = doc[1]
   /\ Len(scopes) > 1 => ~Parse(txt).ok
Ret(s) == LET r == Parse(s) IN IF r.ok THEN OkV(r.n) ELSE Fail
P1(s) == [op |-> "parse", s |-> s, ret |-> Ret(s)]
Emit == IF Mode = "pieces" THEN EmitSeq(<<P1(txt), P1(txt \o <<125>>), P1(txt \o <<93>>)>>)
        ELSE (EmitAll \/ n = MaxSteps) => EmitSeq(<<P1(txt), P1(txt \o Closers), P1(txt \o Closers \o <<SP, 125>>)>>)
=============================================================================
