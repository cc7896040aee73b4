------------------------------- MODULE Settings ------------------------------
(* A settings store with a schema, and the files it loads and saves.  A value v is a text v.s or a *)
(* list of texts v.a, with what it denotes: f, i, b, v, c: can be read as a float, int, bool, vec3, *)
(* colour; n: number (hundredths), x: what it reads as, by type.                                   *)
EXTENDS Conf

Val(s) == [s |-> s, a |-> <<>>, f |-> FALSE, i |-> FALSE, b |-> FALSE, v |-> FALSE, c |-> FALSE, n |-> 0, x |-> <<>>]
Num(s, n) == [Val(s) EXCEPT !.f = TRUE, !.i = TRUE, !.n = n]
Frac(s, n) == [Val(s) EXCEPT !.f = TRUE, !.i = TRUE, !.n = n]      \* read as an int it loses its fraction
IntPart(n) == IF n < 0 THEN 0 - ((0 - n) \div 100) ELSE n \div 100
BoolV(s, y) == [Val(s) EXCEPT !.b = TRUE, !.x = <<IF y THEN 1 ELSE 0>>]
Num01(s, n) == [Num(s, n) EXCEPT !.b = TRUE, !.x = <<n \div 100>>]
Vec(a, x) == [Val("") EXCEPT !.a = a, !.v = TRUE, !.x = x]
VecS(s, n, x) == [Num(s, n) EXCEPT !.v = TRUE, !.x = x]
Arr(a) == [Val("") EXCEPT !.a = a]
Col(s, x) == [Val(s) EXCEPT !.c = TRUE, !.x = x]
EmptyV == Val("")

(* the schema: settings with their type, default, allowed values and range (none: lo and hi empty) *)
Set0(id, ty, def) == [id |-> id, ty |-> ty, def |-> def, allowed |-> <<>>, lo |-> EmptyV, hi |-> EmptyV]
Schema == <<
  [Set0("a", "int", Num("5", 500)) EXCEPT !.lo = Num01("0", 0), !.hi = Num("10", 1000)],
  [Set0("b", "string", Val("x")) EXCEPT !.allowed = <<Val("x"), Val("y"), Val("z w")>>],
  [Set0("g.c", "float", Frac("0.5", 50)) EXCEPT !.lo = Frac("-1.5", -150), !.hi = Frac("2000000.25", 200000025)],
  Set0("g.d", "bool", Num01("1", 100)),
  Set0("g.h.e", "vec3", VecS("0 0 0", 0, <<0, 0, 0>>)),
  Set0("f", "color", Col("ff0000", <<255, 0, 0, 255>>)),
  Set0("t", "", Val("hello")),
  Set0("k", "int", Num("7", 700)),
  [Set0("r", "", Num("2", 200)) EXCEPT !.lo = Num01("1", 100), !.hi = Num("3", 300)],
  [Set0("m", "int", Num("100", 10000)) EXCEPT !.lo = Num01("0", 0), !.hi = Num("2000000", 200000000)] >>
Declared == {Schema[k].id : k \in DOMAIN Schema}
Of(id) == Schema[CHOOSE k \in DOMAIN Schema : Schema[k].id = id]
HasRange(z) == z.lo.s # ""
Same(v, w) == v.s = w.s /\ v.a = w.a
BadType(z, v) == (z.ty = "float" /\ ~v.f) \/ (z.ty = "int" /\ ~v.i) \/ (z.ty = "bool" /\ ~v.b) \/ (z.ty = "vec3" /\ ~v.v) \/ (z.ty = "color" /\ ~v.c)

NoFile == [k |-> "none", es |-> <<>>, ver |-> ""]
NoD == [q \in {} |-> 0]
InitSt == [d |-> NoD, files |-> [f \in {"f1", "f2"} |-> NoFile], cur |-> "f1", ver |-> "1.2.3", dver |-> "", live |-> FALSE]
Erase(d, id) == [q \in (DOMAIN d) \ {id} |-> d[q]]
PutD(d, id, v) == [q \in (DOMAIN d) \cup {id} |-> IF q = id THEN v ELSE d[q]]
(* setting a value: the settings after it, and whether it was accepted *)
TrySet(d, id, v) ==
  IF id \notin Declared THEN [d |-> d, ok |-> FALSE] ELSE LET z == Of(id) IN
  IF Same(v, z.def) \/ Same(v, EmptyV) THEN [d |-> Erase(d, id), ok |-> TRUE]
  ELSE IF BadType(z, v) THEN [d |-> d, ok |-> FALSE]
  ELSE IF z.allowed # <<>> /\ ~\E k \in DOMAIN z.allowed : Same(z.allowed[k], v) THEN [d |-> d, ok |-> FALSE]
  ELSE IF HasRange(z) /\ ~v.f THEN [d |-> d, ok |-> FALSE]
  ELSE IF HasRange(z) /\ v.s = "nan" THEN [d |-> d, ok |-> FALSE]
  ELSE [d |-> PutD(d, id, IF HasRange(z) /\ v.n < z.lo.n THEN z.lo ELSE IF HasRange(z) /\ v.n > z.hi.n THEN z.hi ELSE v), ok |-> TRUE]
RECURSIVE Fold(_, _)
Fold(d, es) == IF es = <<>> THEN d ELSE Fold(TrySet(d, es[1].id, es[1].v).d, Tail(es))
Value(s, id) == IF id \in DOMAIN s.d THEN s.d[id] ELSE Of(id).def
RECURSIVE Entries(_, _)
Entries(d, k) == IF k > Len(Schema) THEN <<>> ELSE (IF Schema[k].id \in DOMAIN d THEN <<[id |-> Schema[k].id, v |-> d[Schema[k].id]]>> ELSE <<>>) \o Entries(d, k + 1)
Save(s, f) == [s EXCEPT !.cur = f, !.files = [g \in (DOMAIN @) \cup {f} |-> IF g = f THEN [k |-> "good", es |-> Entries(s.d, 1), ver |-> s.ver] ELSE @[g]]]
FileOf(s, f) == IF f \in DOMAIN s.files THEN s.files[f] ELSE NoFile
GoodVer(v) == v \notin {"", "abc", "1.2"}
Load(s, f) == LET x == FileOf(s, f) a == [s EXCEPT !.cur = f] IN
  CASE f = "bad" -> R([a EXCEPT !.d = NoD], Fail)
    [] x.k = "none" -> R(Save([a EXCEPT !.d = NoD], f), Ok)
    [] x.k = "broken" -> R(a, Fail)
    [] OTHER -> R([a EXCEPT !.d = Fold(s.d, x.es), !.dver = IF GoodVer(x.ver) THEN x.ver ELSE s.dver], Ok)
Typed(z, v) == CASE z.ty = "int" -> <<IntPart(v.n)>> [] z.ty = "float" -> <<v.n>> [] z.ty \in {"bool", "vec3", "color"} -> v.x [] OTHER -> <<>>
Show(s, id) == LET v == Value(s, id) IN [s |-> v.s, x |-> Typed(Of(id), v)]

Apply(s, o) ==
  CASE o.op = "open" -> LET x == Load([s EXCEPT !.d = NoD, !.dver = "", !.ver = o.ver], o.f) IN
         \* a store that could not be opened does not come to be
         IF x.ret.ok THEN R([x.st EXCEPT !.live = TRUE], Ok) ELSE R([s EXCEPT !.files = x.st.files], Fail)
    [] o.op = "put_file" -> R([s EXCEPT !.files[o.f] = [k |-> IF o.broken THEN "broken" ELSE "good", es |-> o.es, ver |-> o.ver]], Ok)
    [] o.op = "rm_file" -> R([s EXCEPT !.files[o.f] = NoFile], Ok)
    [] ~s.live -> R(s, Fail)
    [] o.op = "set" -> LET r == TrySet(s.d, o.id, o.v) IN R([s EXCEPT !.d = r.d], OkV(r.ok))
    [] o.op = "get" -> R(s, IF o.id \in Declared THEN OkV(Show(s, o.id)) ELSE Fail)
    [] o.op = "save" -> IF o.f = "bad" \/ (o.f = "" /\ s.cur = "bad") THEN R([s EXCEPT !.cur = "bad"], Fail)
                        ELSE R(Save(s, IF o.f = "" THEN s.cur ELSE o.f), Ok)
    [] o.op = "save_full" -> R([s EXCEPT !.cur = "full"], Fail)
    [] o.op = "load" -> Load(s, IF o.f = "" THEN s.cur ELSE o.f)
    [] o.op = "reset_all" -> R([s EXCEPT !.d = NoD], Ok)
(* there may be nothing to write at all, and then nothing fails *)
Bare(s) == s.d = NoD /\ s.ver = ""
Obs(s) == IF ~s.live THEN [live |-> FALSE] ELSE
  [live |-> TRUE, vals |-> [k \in DOMAIN Schema |-> Show(s, Schema[k].id)], cur |-> s.cur, ver |-> s.ver, dver |-> s.dver]
(* every value is one its setting allows *)
Valid(s) == \A id \in DOMAIN s.d : LET z == Of(id) v == s.d[id] IN
  /\ ~BadType(z, v) /\ (HasRange(z) => z.lo.n <= v.n /\ v.n <= z.hi.n)
  /\ (z.allowed # <<>> => \E k \in DOMAIN z.allowed : Same(v, z.allowed[k]))

----------------------------------------------------------------------------
CONSTANTS Ids, MaxLen
VARIABLES st, hist
vars == <<st, hist>>
Init == st = InitSt /\ hist = <<>>
Do(o) == LET r == Apply(st, o) IN
  /\ Len(hist) < MaxLen
  /\ st' = r.st
  /\ hist' = Append(hist, o @@ [ret |-> r.ret, obs |-> Obs(r.st)])
Menu == {EmptyV, Num("5", 500), Num("12", 1200), Num("-3", -300), Num01("0", 0), Num01("1", 100), Frac("1.25", 125), Num("1234567", 123456700), Num("5abc", 500), Val("abc"), Val("x"),
         Val("z w"), Frac("2000000.25", 200000025), Num("2100000", 210000000), BoolV("yes", TRUE), BoolV("no", FALSE), BoolV("false", FALSE),
         Vec(<<"1", "2", "3">>, <<100, 200, 300>>), Arr(<<"1", "2", "q">>), Arr(<<"1", "2">>), VecS("1 -2 0.5", 100, <<100, -200, 50>>),
         Col("Ff", <<0, 0, 255, 255>>), Col("0x00FF0080", <<0, 255, 0, 128>>), Col("rgb(255,128,0)", <<255, 128, 0, 255>>), Col("hsv(240, 100, 100)", <<0, 0, 255, 255>>),
         [Val("nan") EXCEPT !.f = TRUE]}
Useful(id, v) == IF id \notin Declared THEN Same(v, Val("abc")) ELSE LET z == Of(id) IN
  IF z.ty = "color" THEN v.c \/ Same(v, EmptyV) \/ Same(v, Val("x"))
  ELSE IF z.ty = "vec3" THEN v.v \/ v.a # <<>> \/ Same(v, Val("abc"))
  ELSE IF z.ty = "bool" THEN v.b \/ Same(v, Val("abc")) \/ Same(v, Num("5", 500))
  \* what is not a number only in part cannot be read as a number here, and nan is not printed
  ELSE IF z.ty = "int" THEN ~v.c /\ v.s # "nan" /\ ~v.v
  ELSE IF z.ty = "float" THEN ~v.c /\ (~v.v \/ v.s = "")
  ELSE ~v.v /\ ~v.c
Choice(id) == {v \in Menu : Useful(id, v)}
DoOpen == \E f \in {"f1", "f2", "bad"}, v \in {"1.2.3", ""} : (~st.live \/ v = "1.2.3") /\ Do([op |-> "open", f |-> f, ver |-> v])
DoSet == st.live /\ \E id \in Ids : \E v \in Choice(id) : (v.a = <<>> \/ v.v) /\ Do([op |-> "set", id |-> id, v |-> v])
DoGet == st.live /\ \E id \in Ids \cup {"version", "g", "g.zz"} : Do([op |-> "get", id |-> id])
DoSave == st.live /\ \E f \in {"", "f1", "f2", "bad"} : Do([op |-> "save", f |-> f])
DoFull == st.live /\ ~Bare(st) /\ Do([op |-> "save_full"])
DoLoad == st.live /\ \E f \in {"", "f1", "f2", "bad"} : (f # "" \/ st.cur # "bad") /\ Do([op |-> "load", f |-> f])
DoReset == st.live /\ Do([op |-> "reset_all"])
One == CHOOSE id \in Ids : TRUE
DoPut == \/ \E b \in BOOLEAN : Do([op |-> "put_file", f |-> "f1", broken |-> b, ver |-> "", es |-> <<>>])
         \/ \E id \in Ids, v \in {"", "2.0.1", "abc"} : \E x \in Choice(id) :
            (v = "" \/ (id = One /\ Same(x, Num("5", 500)))) /\
            Do([op |-> "put_file", f |-> "f1", broken |-> FALSE, ver |-> v, es |-> <<[id |-> "g.zz", v |-> Val("abc")], [id |-> id, v |-> x], [id |-> One, v |-> [Num("12", 1200) EXCEPT !.c = TRUE, !.x = <<0, 0, 18, 255>>]]>>])
DoRm == Do([op |-> "rm_file", f |-> "f1"])
Next == DoOpen \/ DoSet \/ DoGet \/ DoSave \/ DoFull \/ DoLoad \/ DoReset \/ DoPut \/ DoRm
Spec == Init /\ [][Next]_vars
InvValid == Valid(st)
Shape == <<st.d, st.files, st.cur, st.live>>
ASSUME PrintT("@S" \o ToJson(Schema))
EmitEdge == EmitB([i \in 1..(Len(hist') - 1) |-> hist'[i]], hist'[Len(hist')])
EmitRun == Len(hist) = MaxLen => EmitB(SubSeq(hist, 1, MaxLen - 1), hist[MaxLen])
=============================================================================
