------------------------------- MODULE Assoc -------------------------------
(* flat_map, flat_set, sorted_vector, indexed_map, indexed_set.  The content of each is a sequence *)
(* of entries <<key, value>> (sets and vectors: value 0) in the order the container iterates.      *)
(* Abstraction: a finite map / set / multiset (ghost m) that the sequence must represent.          *)
EXTENDS Conf

KindsAll == {"fmap", "fset", "svec", "imap", "iset"}

Key(e) == e[1]
Val(e) == e[2]
Pos(d, k) == IF \E i \in DOMAIN d : Key(d[i]) = k
             THEN (CHOOSE i \in DOMAIN d : Key(d[i]) = k /\ \A j \in 1..(i-1) : Key(d[j]) # k) - 1
             ELSE Len(d)
PosFrom(d, k, f) == IF \E i \in (f+1)..Len(d) : Key(d[i]) = k
             THEN (CHOOSE i \in (f+1)..Len(d) : Key(d[i]) = k /\ \A j \in (f+1)..(i-1) : Key(d[j]) # k) - 1
             ELSE Len(d)
Has(d, k) == Pos(d, k) < Len(d)
Lower(d, k) == Cardinality({i \in DOMAIN d : Key(d[i]) < k})     \* 0-based position of the first not less
Upper(d, k) == Cardinality({i \in DOMAIN d : Key(d[i]) <= k})
Count(d, k) == Cardinality({i \in DOMAIN d : Key(d[i]) = k})
InsAt(d, p, e) == SubSeq(d, 1, p) \o <<e>> \o SubSeq(d, p + 1, Len(d))
DelAt(d, p) == SubSeq(d, 1, p) \o SubSeq(d, p + 2, Len(d))
Keys(d) == {Key(d[i]) : i \in DOMAIN d}

RECURSIVE InitOf(_, _, _)
InitOf(kind, d, l) ==       \* the entries of an initializer list, one after the other
  IF l = <<>> THEN d ELSE
  LET e == Head(l) IN
  InitOf(kind,
    CASE kind \in {"fmap", "fset"} -> IF Has(d, Key(e)) THEN d ELSE InsAt(d, Lower(d, Key(e)), e)
      [] kind = "svec" -> InsAt(d, Upper(d, Key(e)), e)
      [] kind = "imap" -> Append(d, e)
      [] OTHER -> d,
    Tail(l))
InitSt(kind, l) == [kind |-> kind, d |-> InitOf(kind, <<>>, l)]

Set(s, d) == [s EXCEPT !.d = d]

(* fmap: insert keeps the stored value; imap: insert replaces it *)
Insert(s, o) ==
  LET k == o.k  d == s.d IN
  CASE s.kind \in {"fmap", "fset"} ->
         IF Has(d, k) THEN R(s, OkV([pos |-> Pos(d, k), new |-> FALSE]))
         ELSE R(Set(s, InsAt(d, Lower(d, k), <<k, o.v>>)), OkV([pos |-> Lower(d, k), new |-> TRUE]))
    [] s.kind = "svec" -> R(Set(s, InsAt(d, Upper(d, k), <<k, 0>>)), OkV([pos |-> Upper(d, k), new |-> TRUE]))
    [] s.kind = "imap" ->
         IF Has(d, k) THEN R(Set(s, [d EXCEPT ![Pos(d, k) + 1] = <<k, o.v>>]), OkV([pos |-> Pos(d, k), new |-> FALSE]))
         ELSE R(Set(s, Append(d, <<k, o.v>>)), OkV([pos |-> Len(d), new |-> TRUE]))

GetOrAdd(s, k) ==      \* position and next content of operator[] / get_or_add
  IF Has(s.d, k) THEN <<Pos(s.d, k), s.d>>
  ELSE IF s.kind = "fmap" THEN <<Lower(s.d, k), InsAt(s.d, Lower(s.d, k), <<k, 0>>)>>
  ELSE <<Len(s.d), Append(s.d, <<k, 0>>)>>

Apply(s, o) ==
  LET d == s.d  n == Len(s.d) IN
  CASE o.op \in {"insert", "insert_rv"} -> Insert(s, o)
    [] o.op = "index" -> LET g == GetOrAdd(s, o.k) IN R(Set(s, g[2]), OkV(Val(g[2][g[1] + 1])))
    [] o.op = "assign" -> LET g == GetOrAdd(s, o.k) IN R(Set(s, [g[2] EXCEPT ![g[1] + 1] = <<o.k, o.v>>]), Ok)
    [] o.op \in {"at", "cat", "cindex"} -> IF Has(d, o.k) THEN R(s, OkV(Val(d[Pos(d, o.k) + 1]))) ELSE R(s, Fail)
    [] o.op = "erase_key" -> IF Has(d, o.k) THEN R(Set(s, DelAt(d, Pos(d, o.k))), OkV(1)) ELSE R(s, OkV(0))
    [] o.op = "erase_at" -> IF o.i < n THEN R(Set(s, DelAt(d, o.i)), OkV(o.i)) ELSE R(s, Fail)
    [] o.op = "remove" -> IF Has(d, o.k) THEN R(Set(s, SelectSeq(d, LAMBDA e : Key(e) # o.k)), OkV(Pos(d, o.k))) ELSE R(s, OkV(n))
    [] o.op = "find" -> R(s, OkV([m |-> Pos(d, o.k), c |-> Pos(d, o.k)]))
    [] o.op = "find_from" -> R(s, OkV([m |-> PosFrom(d, o.k, o.i), c |-> PosFrom(d, o.k, o.i)]))
    [] o.op = "lower" -> R(s, OkV([m |-> Lower(d, o.k), c |-> Lower(d, o.k)]))
    [] o.op = "upper" -> R(s, OkV([m |-> Upper(d, o.k), c |-> Upper(d, o.k)]))
    [] o.op = "count" -> R(s, OkV(Count(d, o.k)))
    [] o.op = "contains" -> R(s, OkV(Has(d, o.k)))
    [] o.op = "push_back" -> R(Set(s, Append(d, <<o.k, o.v>>)), Ok)
    [] o.op = "get_or_add" -> LET g == GetOrAdd(s, o.k) IN
         IF ~Has(d, o.k) /\ n >= o.limit THEN R(s, Fail) ELSE R(Set(s, g[2]), OkV(g[1]))
    [] o.op = "try_get" -> R(s, OkV(IF Has(d, o.k) THEN Pos(d, o.k) ELSE -1))
    [] o.op = "clear" -> R(Set(s, <<>>), Ok)
    [] o.op \in {"copy", "move", "reserve"} -> R(s, Ok)

Rev(d) == [i \in 1..Len(d) |-> d[Len(d) + 1 - i]]
Obs(s) == [size |-> Len(s.d), empty |-> Len(s.d) = 0, it |-> s.d, cit |-> s.d,
           rev |-> IF s.kind \in {"fmap", "fset"} THEN Rev(s.d) ELSE <<>>,
           ends |-> IF Len(s.d) = 0 \/ s.kind = "iset" THEN <<>> ELSE <<s.d[1], s.d[Len(s.d)]>>]

OpsOf(kind) ==
  CASE kind = "fmap" -> {"insert", "insert_rv", "index", "assign", "at", "cat", "cindex", "erase_key", "erase_at", "find", "lower", "upper", "count", "contains", "clear", "copy", "move", "reserve"}
    [] kind = "fset" -> {"insert", "insert_rv", "erase_key", "erase_at", "find", "lower", "upper", "count", "contains", "clear", "copy", "move", "reserve"}
    [] kind = "svec" -> {"insert", "erase_at", "remove", "find", "clear", "copy", "move", "reserve"}
    [] kind = "imap" -> {"insert", "index", "assign", "cindex", "erase_at", "find", "find_from", "count", "contains", "push_back", "clear", "copy", "move", "reserve"}
    [] kind = "iset" -> {"get_or_add", "try_get", "cindex_i", "clear", "copy", "move"}

----------------------------------------------------------------------------
CONSTANTS Kinds, K, V, MaxSize, MaxLen, MaxInit
VARIABLES st, hist, ini, pushed

vars == <<st, hist, ini, pushed>>
Seqs(S, n) == UNION {[1..i -> S] : i \in 0..n}
Init == \E kind \in Kinds, l \in Seqs(K \X V, MaxInit) :
  /\ kind = "iset" => l = <<>>
  /\ kind \in {"fset", "svec"} => \A i \in DOMAIN l : l[i][2] = 0
  /\ st = InitSt(kind, l) /\ ini = [kind |-> kind, l |-> l] /\ hist = <<>>
  /\ pushed = (kind = "imap" /\ \E i, j \in DOMAIN l : i # j /\ l[i][1] = l[j][1])

Vs == IF st.kind \in {"fmap", "imap"} THEN V \ {0} ELSE {0}
Do(o) == LET r == Apply(st, o) IN
  /\ o.op \in OpsOf(st.kind) /\ Len(hist) < MaxLen /\ Len(r.st.d) <= MaxSize
  /\ st' = r.st /\ hist' = Append(hist, o @@ [ret |-> r.ret, obs |-> Obs(r.st)])
  /\ pushed' = (pushed \/ o.op = "push_back")
  /\ UNCHANGED ini

DoInsert == \E k \in K, v \in Vs : Do([op |-> "insert", k |-> k, v |-> v]) \/ Do([op |-> "insert_rv", k |-> k, v |-> v])
DoIndex == \E k \in K : Do([op |-> "index", k |-> k])
DoAssign == \E k \in K, v \in Vs : Do([op |-> "assign", k |-> k, v |-> v])
DoAt == \E k \in K, n \in {"at", "cat", "cindex"} : Do([op |-> n, k |-> k])
DoEraseKey == \E k \in K : Do([op |-> "erase_key", k |-> k])
DoEraseAt == \E i \in 0..(Len(st.d) - 1) : Do([op |-> "erase_at", i |-> i])
DoRemove == \E k \in K : Do([op |-> "remove", k |-> k])
DoFind == \E k \in K, n \in {"find", "lower", "upper", "count", "contains"} : Do([op |-> n, k |-> k])
DoFindFrom == \E k \in K, i \in 0..Len(st.d) : Do([op |-> "find_from", k |-> k, i |-> i])
DoPushBack == \E k \in K, v \in Vs : Do([op |-> "push_back", k |-> k, v |-> v])
DoGetOrAdd == \E k \in K : Do([op |-> "get_or_add", k |-> k, limit |-> 255])
DoTryGet == \E k \in K : Do([op |-> "try_get", k |-> k])
DoRest == \E n \in {"clear", "copy", "move", "reserve"} : Do([op |-> n])
Next == DoInsert \/ DoIndex \/ DoAssign \/ DoAt \/ DoEraseKey \/ DoEraseAt \/ DoRemove \/ DoFind \/ DoFindFrom
        \/ DoPushBack \/ DoGetOrAdd \/ DoTryGet \/ DoRest
Spec == Init /\ [][Next]_vars

(* the properties *)
InvSorted == st.kind \in {"fmap", "fset"} => \A i \in 1..(Len(st.d) - 1) : Key(st.d[i]) < Key(st.d[i + 1])
InvSortedMulti == st.kind = "svec" => \A i \in 1..(Len(st.d) - 1) : Key(st.d[i]) <= Key(st.d[i + 1])
InvUnique == (st.kind \in {"fmap", "fset", "iset"} \/ (st.kind = "imap" /\ ~pushed)) => Cardinality(Keys(st.d)) = Len(st.d)
InvBounds == \A k \in K : Lower(st.d, k) <= Upper(st.d, k) /\ (st.kind \in {"fmap", "fset", "svec"} => Upper(st.d, k) - Lower(st.d, k) = Count(st.d, k))
(* an index, once given, is stable; insertion order is kept; nothing but the named key changes *)
Stable == [][hist' # hist =>
   LET o == hist'[Len(hist')] IN
   /\ (st.kind = "iset" /\ o.op # "clear" => IsPrefix(st.d, st'.d))
   /\ (st.kind = "imap" /\ o.op \notin {"clear", "erase_at"} => [i \in DOMAIN st.d |-> st.d[i][1]] = [i \in DOMAIN st.d |-> st'.d[i][1]])
   /\ (o.op \in {"insert", "insert_rv", "assign", "index", "erase_key", "remove"} =>
         SelectSeq(st.d, LAMBDA e : Key(e) # o.k) = SelectSeq(st'.d, LAMBDA e : Key(e) # o.k))
   /\ (o.op \in {"find", "find_from", "lower", "upper", "count", "contains", "at", "cat", "cindex", "try_get", "copy", "move", "reserve"} => st' = st)]_vars

Shape == <<st, pushed, ini>>
EmitEdge == EmitBI(ini, [i \in 1..(Len(hist') - 1) |-> hist'[i]], hist'[Len(hist')])
EmitRun == Len(hist) = MaxLen => EmitBI(ini, SubSeq(hist, 1, MaxLen - 1), hist[MaxLen])
=============================================================================
