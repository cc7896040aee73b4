------------------------------ MODULE IniXmlMC ------------------------------
(* (1) every text of a few pieces; (2) every small tree, written and read back; (3) a machine that   *)
(* writes INI or XML item by item and keeps the tree it means.                                      *)
EXTENDS IniXml
CONSTANTS F, Mode, Pieces, Openings, Closings, MaxPieces, K, V, MaxNodes, MaxSteps, Rich
VARIABLES txt, n, doc, at, names
vars == <<txt, n, doc, at, names>>
Init == /\ n = 0 /\ at = <<>> /\ names = <<>>
        /\ txt \in (IF Mode = "pieces" THEN Openings ELSE {<<>>})
        /\ doc = Empty
Piece == /\ Mode = "pieces" /\ n < MaxPieces /\ \E p \in Pieces : txt' = txt \o p
         /\ n' = n + 1 /\ UNCHANGED <<doc, at, names>>

RECURSIVE NAt(_, _), NPut(_, _, _), Count(_), Places(_)
NAt(x, p) == IF p = <<>> THEN x ELSE NAt(x.c[Head(p)].n, Tail(p))
NPut(x, p, m) == IF p = <<>> THEN m ELSE [x EXCEPT !.c[Head(p)].n = NPut(x.c[Head(p)].n, Tail(p), m)]
Count(x) == 1 + (LET f[i \in 0..Len(x.c)] == IF i = 0 THEN 0 ELSE f[i - 1] + Count(x.c[i].n) IN f[Len(x.c)])
Places(x) == {<<>>} \cup UNION {{<<i>> \o q : q \in Places(x.c[i].n)} : i \in DOMAIN x.c}
Grow == /\ Mode = "trees" /\ Count(doc) < MaxNodes
        /\ \E p \in Places(doc), k \in K, v \in V : doc' = NPut(doc, p, [NAt(doc, p) EXCEPT !.c = Append(@, Kid(k, N(v, <<>>)))])
        /\ UNCHANGED <<txt, n, at, names>>

(* ---- meaning: the text so far, the tree it means, the open elements (XML) or the group (INI) ---- *)
Go == Mode = "means" /\ n < MaxSteps
Pick(S) == IF Rich /\ S # {} THEN {RandomElement(S)} ELSE S
W(t, d) == txt' = txt \o t /\ doc' = d /\ n' = n + 1
Ws == Pick({<<>>, <<SP>>, <<TAB, SP>>})
IniItem == Go /\ F = "ini" /\ \E k \in Pick(K), v \in Pick(V), a \in Ws, b \in Ws : IniKey(k) /\ IniVal(v) /\
   W(a \o k \o b \o <<61>> \o a \o v \o b \o <<NL>>, NPut(doc, at, SetKid(NAt(doc, at), k, v))) /\ (a = <<>> \/ k[1] # 91) /\ UNCHANGED <<at, names>>
IniGroup == Go /\ F = "ini" /\ \E k \in Pick(K) : k # <<>> /\ W(<<91>> \o k \o <<93, NL>>, [doc EXCEPT !.c = Append(@, Kid(k, Empty))]) /\ at' = <<Len(doc.c) + 1>> /\ UNCHANGED names
IniSkip == Go /\ F = "ini" /\ \E t \in Pick({<<NL>>, <<59, NL>>, <<59, 91, 97, 93, NL>>, <<59, 97, 61, 98, NL>>}) : W(t, doc) /\ UNCHANGED <<at, names>>

Here == NAt(doc, at)
XOpenStep == Go /\ F = "xml" /\ Len(names) < 4 /\ \E k \in Pick(K), a \in Pick({<<>>} \cup {<<x>> : x \in K} \cup {<<x, y>> : x \in K, y \in K}), v \in Pick(V), q \in Pick({34, 39}), w \in Pick({<<>>, <<SP>>, <<NL, TAB>>}), close \in Pick(BOOLEAN) :
   LET enc == Cat([j \in DOMAIN v |-> XEnc(v[j])])
       ks == [j \in DOMAIN a |-> Kid(a[j], N(v, <<>>))]
       as == Cat([j \in DOMAIN a |-> <<SP>> \o a[j] \o w \o <<61>> \o w \o <<q>> \o enc \o <<q>>])
   IN /\ W(<<60>> \o k \o as \o w \o (IF close THEN <<47, 62>> ELSE <<62>>), NPut(doc, at, [Here EXCEPT !.c = Append(@, Kid(k, N(<<>>, ks)))]))
      /\ IF close THEN UNCHANGED <<at, names>> ELSE at' = Append(at, Len(Here.c) + 1) /\ names' = Append(names, k)
XEncs(v) == Pick({Cat([j \in DOMAIN v |-> XEnc(v[j])]), Cat([j \in DOMAIN v |-> <<38, 35>> \o NatCodes(v[j]) \o <<59>>])} \cup
                 (IF FindFrom(v, 1, <<93, 93, 62>>) = 0 THEN {<<60, 33, 91, 67, 68, 65, 84, 65, 91>> \o v \o <<93, 93, 62>>} ELSE {}))
(* directly after text, more text would continue it *)
LastIsText == txt # <<>> /\ txt[Len(txt)] # 62
XText == Go /\ F = "xml" /\ names # <<>> /\ ~LastIsText /\ \E v \in Pick(V) : v # <<>> /\ (\E i \in DOMAIN v : v[i] \notin XWs) /\ ~Has(v, 0) /\ \E e \in XEncs(v) :
   W(e, NPut(doc, at, FirstText(Here, v))) /\ UNCHANGED <<at, names>>
XClose == Go /\ F = "xml" /\ names # <<>> /\ \E w \in Pick({<<>>, <<SP, NL>>}) : W(<<60, 47>> \o names[Len(names)] \o w \o <<62>>, doc)
   /\ at' = SubSeq(at, 1, Len(at) - 1) /\ names' = SubSeq(names, 1, Len(names) - 1)
XSkipStep == Go /\ F = "xml" /\ ~LastIsText /\ \E t \in Pick({<<60, 33, 45, 45, 60, 97, 62, 45, 45, 62>>, <<60, 63, 97, 60, 63, 62>>, <<60, 33, 68, 79, 67, 84, 89, 80, 69, 32, 91, 60, 33, 62, 93, 62>>, <<NL, SP>>}) :
   (t # <<NL, SP>> \/ TRUE) /\ W(t, doc) /\ UNCHANGED <<at, names>>
Next == Piece \/ Grow \/ IniItem \/ IniGroup \/ IniSkip \/ XOpenStep \/ XText \/ XClose \/ XSkipStep
Spec == Init /\ [][Next]_vars

XClosers == LET f[i \in 0..Len(names)] == IF i = 0 THEN <<>> ELSE <<60, 47>> \o names[i] \o <<62>> \o f[i - 1] IN f[Len(names)]
Whole == txt \o XClosers
(* the reader finds the meaning, and only when every element is closed *)
InvMeaning == Mode = "means" =>
   /\ ReadAs(F, Whole) = Good(doc)
   /\ (names # <<>> => ~ReadAs(F, txt).ok)
InvRound == (Mode = "trees" /\ Denotes(F, doc)) => ReadAs(F, Text_(F, doc)) = Good(BackFrom(F, doc))
P1(s) == [op |-> "parse", f |-> F, s |-> s, ret |-> ReadRet(F, s)]
Emit ==
  CASE Mode = "pieces" -> EmitSeq(SetToSeq({P1(txt \o c) : c \in Closings}))
    [] Mode = "means" -> EmitSeq(<<P1(Whole), P1(txt), P1(Whole \o <<60>>)>>)
    [] Mode = "trees" -> Denotes(F, doc) => EmitSeq(<<[op |-> "round", f |-> F, w |-> "stream", n |-> doc, ret |-> OkV(BackFrom(F, doc))],
         [op |-> "round", f |-> F, w |-> "file", n |-> doc, ret |-> OkV(BackFrom(F, doc))], P1(Text_(F, doc))>>)
EmitLong == n = MaxSteps => EmitSeq(<<P1(Whole), P1(txt), P1(Whole \o <<60>>)>>)
=============================================================================
