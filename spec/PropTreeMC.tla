----------------------------- MODULE PropTreeMC -----------------------------
(* Exploration of PropTree: every call on every node of every small tree.                          *)
EXTENDS PropTree
CONSTANTS K, V, Vs, Groups, MaxNodes, MaxLen, Delims, EmitFull
VARIABLES st, hist
vars == <<st, hist>>
Init == st = InitSt /\ hist = <<>>

L(v, c) == [v |-> v, c |-> c]
(* argument trees: overlapping keys, repeated keys, nested *)
Lits == {L("", <<>>), L("2", <<Kid("a", L("1", <<>>))>>), L("", <<Kid("a", L("", <<Kid("b", L("2", <<>>))>>)), Kid("a", L("1", <<>>))>>),
         L("1", <<Kid("", L("2", <<>>)), Kid("b", L("", <<>>))>>)}
SmallLits == {L("2", <<Kid("a", L("1", <<>>))>>), L("", <<Kid("", L("2", <<>>)), Kid("b", L("1", <<>>))>>)}
Comps == K \cup {"#1", "#2", "#x"}
Qs == {<<k>> : k \in Comps} \cup {<<j, k>> : j \in Comps, k \in Comps} 
KSeqs == {<<j, k>> : j \in K, k \in K} \cup {<<"c">>}
AllP == LET q == AllPaths(st) IN {q[i] : i \in DOMAIN q}
Rel(t) == LET q == AllPaths(At(st, t)) IN {q[i] : i \in DOMAIN q}
Poss(t) == 1..(Len(At(st, t).c) + 1)
Delim == IF Delims = {"."} THEN "." ELSE "/"

Do(o) == LET r == Apply(st, o) IN
  /\ Len(hist) < MaxLen /\ Nodes(r.st) <= MaxNodes
  /\ st' = r.st
  /\ hist' = Append(hist, IF EmitFull THEN o @@ [ret |-> r.ret, obs |-> Obs(r.st)] ELSE o)
On(t, o) == Do([t |-> t] @@ o)
T == AllP
G(g) == g \in Groups

(* edits *)
DoSetKey == G("edit") /\ \E t \in T, k \in K, v \in Vs, n \in {"set_key", "assign_key", "add_kv"} : On(t, [op |-> n, k |-> k, v |-> v])
DoSet == G("edit") /\ \E t \in T, v \in V, n \in {"set", "set_value", "add_value"} : On(t, [op |-> n, v |-> v])
DoSetTree == G("edit") /\ \E t \in T, x \in SmallLits, n \in {"set_tree", "set_tree_rv", "append", "append_rv"} : On(t, [op |-> n, x |-> x])
DoSetInts == G("edit") /\ \E t \in T, x \in {<<>>, <<"2">>, <<"1", "33">>} : On(t, [op |-> "set_ints", xs |-> x])
DoAdd == G("edit") /\ \E t \in T, k \in K : On(t, [op |-> "add_child", k |-> k])
DoAddTree == G("edit") /\ \E t \in T, k \in K, x \in SmallLits, n \in {"add_tree", "add_tree_rv"} : On(t, [op |-> n, k |-> k, x |-> x])
DoAddChildren == G("edit") /\ \E t \in T, k \in K, n \in 0..2 : On(t, [op |-> "add_children", n |-> n, k |-> k, v |-> "1"])
DoInsert == G("edit") /\ \E t \in T, x \in SmallLits : \E i \in 0..Len(At(st, t).c) : On(t, [op |-> "insert", i |-> i, x |-> x])
DoMerge == G("edit") /\ \E t \in T, x \in Lits, b \in BOOLEAN : On(t, [op |-> "merge", x |-> x, ow |-> b])
DoEraseKey == G("edit") /\ \E t \in T, k \in K : On(t, [op |-> "erase_key", k |-> k])
DoEraseAt == G("edit") /\ \E t \in T : \E i \in DOMAIN At(st, t).c : On(t, [op |-> "erase_at", i |-> i])
DoEraseQuery == G("edit") /\ \E t \in T, q \in Qs : On(t, [op |-> "erase_query", q |-> q, d |-> Delim])
DoPopClear == G("edit") /\ \E t \in T, n \in {"pop_back", "clear", "copy", "move"} : (n = "pop_back" => At(st, t).c # <<>>) /\ On(t, [op |-> n])
DoGetOrAdd == G("edit") /\ \E t \in T, k \in K : On(t, [op |-> "get_or_add_child", k |-> k])
DoGetOrAddQuery == G("edit") /\ \E t \in T, q \in Qs : On(t, [op |-> "get_or_add_query", q |-> q, d |-> Delim])
DoSetQuery == G("edit") /\ \E t \in T, q \in Qs, v \in Vs : On(t, [op |-> "set_query", q |-> q, d |-> Delim, v |-> v])
(* lookups *)
DoLookKey == G("look") /\ \E t \in T, k \in K \cup {"c"}, n \in {"try_get_child", "ctry_get_child", "get_child", "cget_child", "find_rec", "key_info"} : On(t, [op |-> n, k |-> k])
DoLookAt == G("look") /\ \E t \in T, n \in {"get_child_at", "cget_child_at"} : \E i \in 0..(Len(At(st, t).c) + 1) : On(t, [op |-> n, i |-> i])
DoLookAny == G("look") /\ \E t \in T, ks \in KSeqs, n \in {"try_get_any_child", "get_any_child", "has_any_key"} : On(t, [op |-> n, ks |-> ks])
DoLookQuery == G("look") /\ \E t \in T, q \in Qs, n \in {"try_get_query", "ctry_get_query"} : On(t, [op |-> n, q |-> q, d |-> Delim])
DoParent == G("look") /\ \E t \in T, n \in {"find_parent", "cfind_parent"} : \E p \in Rel(t) \cup {<<9>>} : On(t, [op |-> n, p |-> p])
DoInfo == G("look") /\ \E t \in T, n \in {"info", "ends"} : On(t, [op |-> n])
DoEq == G("look") /\ \E t \in T, x \in Lits : On(t, [op |-> "eq", x |-> x])
(* reads *)
DoReadNode == G("read") /\ \E t \in T, n \in {"is_array", "get_str", "get_int", "try_get_int", "get_ints", "iterate", "citerate", "riterate", "criterate", "unaccessed", "log_unaccessed", "info"} : On(t, [op |-> n])
DoReadKey == G("read") /\ \E t \in T, k \in K, n \in {"get_str_key", "get_int_key", "try_get_int_key", "try_get_into", "get_all", "select", "get_child", "key_info"} : On(t, [op |-> n, k |-> k])
DoReadAt == G("read") /\ \E t \in T, n \in {"get_key", "get_int_at"} : \E i \in 1..(Len(At(st, t).c) + 1) : (n = "get_key" => i <= Len(At(st, t).c)) /\ On(t, [op |-> n, i |-> i])
DoReadDef == G("read") /\ \E t \in T, k \in K : On(t, [op |-> "get_int_def", k |-> k, d |-> 77])
DoReadAny == G("read") /\ \E t \in T, ks \in KSeqs, n \in {"get_any", "get_any_def", "try_get_any"} : On(t, [op |-> n, ks |-> ks, d |-> 77])
DoPattern == G("read") /\ \E t \in T, p \in DOMAIN PatMatch : On(t, [op |-> "select_pattern", pat |-> p])
DoAccess == G("read") /\ \E t \in T, n \in {"access", "set_accessed_rec"}, b \in BOOLEAN : On(t, [op |-> n, b |-> b])
DoFindQuery == G("read") /\ \E t \in T, n \in {"find_query_to", "make_query"} : \E p \in Rel(t) \cup {<<9>>} : On(t, [op |-> n, p |-> p])

(* a few edits to build trees with values when only reads are explored *)
DoBuild == G("build") /\ \E t \in T : \/ \E k \in K, v \in V : On(t, [op |-> "add_kv", k |-> k, v |-> v])
                                      \/ \E v \in Vs : On(t, [op |-> "set_value", v |-> v])
                                      \/ \E k \in K : On(t, [op |-> "set_key", k |-> k, v |-> "1"])
                                      \/ On(t, [op |-> "copy"])
Next == \/ DoSetKey \/ DoSet \/ DoSetTree \/ DoSetInts \/ DoAdd \/ DoAddTree \/ DoAddChildren \/ DoInsert \/ DoMerge \/ DoEraseKey
        \/ DoEraseAt \/ DoEraseQuery \/ DoPopClear \/ DoGetOrAdd \/ DoGetOrAddQuery \/ DoSetQuery
        \/ DoLookKey \/ DoLookAt \/ DoLookAny \/ DoLookQuery \/ DoParent \/ DoInfo \/ DoEq
        \/ DoReadNode \/ DoReadKey \/ DoReadAt \/ DoReadDef \/ DoReadAny \/ DoPattern \/ DoAccess \/ DoFindQuery \/ DoBuild
Spec == Init /\ [][Next]_vars

(* ---- the properties, as laws of the operators ---- *)
LookOps == {"try_get_child", "ctry_get_child", "get_child", "cget_child", "find_rec", "key_info", "get_child_at", "cget_child_at",
            "try_get_any_child", "get_any_child", "has_any_key", "try_get_query", "ctry_get_query", "find_parent", "cfind_parent", "info", "ends", "eq",
            "unaccessed", "log_unaccessed", "copy", "move"}
ReadOps == {"is_array", "get_str", "get_int", "try_get_int", "get_ints", "iterate", "citerate", "riterate", "criterate", "get_str_key",
            "get_int_key", "try_get_int_key", "try_get_into", "get_all", "select", "get_key", "get_int_at", "get_int_def", "get_any", "get_any_def",
            "try_get_any", "select_pattern", "access", "set_accessed_rec", "find_query_to", "make_query"}
LastOp == hist'[Len(hist')]
(* lookups, counts and reports leave tree and marks alone; reads leave the tree alone *)
LookupsArePure == [][hist' # hist => (LastOp.op \in LookOps => st' = st) /\ (LastOp.op \in ReadOps => SameTree(st, st'))]_vars
(* a read never takes a mark away, except when it is told to *)
RECURSIVE MarksKept(_, _)
MarksKept(x, y) == (x.a => y.a) /\ \A i \in DOMAIN x.c : MarksKept(x.c[i].n, y.c[i].n)
ReadsKeepMarks == [][hist' # hist => (LastOp.op \in ReadOps \ {"access", "set_accessed_rec"} => MarksKept(st, st'))]_vars
(* after a set by path the path leads to the value; only one node changed *)
SetThenGet == [][hist' # hist =>
   /\ (LastOp.op = "set_query" => LET n == At(st', LastOp.t) IN Query(n, LastOp.q) # NoPath /\ At(n, Query(n, LastOp.q)).v = LastOp.v)
   /\ (LastOp.op \in {"set_key", "assign_key"} => LET n == At(st', LastOp.t) IN At(n, <<First(n, LastOp.k)>>).v = LastOp.v)
   /\ (LastOp.op = "merge" => LET n == At(st', LastOp.t) IN
        /\ SameTree(Merge(n, Lit(LastOp.x), LastOp.ow), n) \/ \E i, j \in DOMAIN LastOp.x.c : i # j /\ LastOp.x.c[i].k = LastOp.x.c[j].k
        /\ \A i \in DOMAIN LastOp.x.c : First(n, LastOp.x.c[i].k) > 0)]_vars
(* the listing of unaccessed entries has a starred line for exactly the unaccessed nodes below *)
InvListing == (st.a \/ st.v = "") => ((UnaccLines(st, 0) = <<>>) <=> (Unacc(st) = 0))
(* a query that names distinct literal keys finds what the parent search can trace back *)
InvQuery == \A p \in AllP : LET n == At(st, p) IN (p = <<>>) \/ (Query(At(st, SubSeq(p, 1, Len(p) - 1)), <<UpQ(st, p)>>) # NoPath)

EmitEdge == LET r == Apply(st, LastOp) IN EmitB(hist, LastOp @@ [ret |-> r.ret, obs |-> Obs(r.st)])
EmitRun == Len(hist) = MaxLen => EmitSeq(hist)
View == st
=============================================================================
