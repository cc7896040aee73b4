------------------------------- MODULE MemoAlg -------------------------------
(* The algorithm of memoize_thread_safe, one step per lock operation, lookup and call of the       *)
(* wrapped function, for NT threads that make any sequence of at most NC calls.  Every event it    *)
(* produces is checked against MemoEv: `allowed` stays TRUE.  Variant names wrong algorithms that  *)
(* the check must tell apart from the right one.                                                   *)
EXTENDS MemoEv
CONSTANTS NT, NC, Args, Variant
VARIABLES pc, arg, n, rd, wr, map, thrown, abs, allowed
vars == <<pc, arg, n, rd, wr, map, thrown, abs, allowed>>
T == 1..NT

Init == /\ pc = [t \in T |-> "idle"] /\ arg = [t \in T |-> 0] /\ n = [t \in T |-> 0]
        /\ rd = {} /\ wr = 0 /\ map = [a \in {} |-> 0] /\ thrown = FALSE /\ abs = InitSt(NT) /\ allowed = TRUE

Ev(e) == LET S == Step(abs, e) IN IF S = {} THEN allowed' = FALSE /\ abs' = abs ELSE allowed' = allowed /\ abs' \in S
Quiet == UNCHANGED <<abs, allowed>>
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
CanRead(t) == wr = 0 /\ t \notin rd
CanWrite(t) == wr = 0 /\ rd = {}

Call(t) == /\ pc[t] = "idle" /\ n[t] < NC
           /\ \E a \in Args : arg' = [arg EXCEPT ![t] = a] /\ Ev([op |-> "call", t |-> t, a |-> a])
           /\ n' = [n EXCEPT ![t] = @ + 1] /\ Go(t, "rlock") /\ UNCHANGED <<rd, wr, map, thrown>>
RLock(t) == pc[t] = "rlock" /\ CanRead(t) /\ rd' = rd \cup {t} /\ Go(t, "find") /\ Quiet /\ UNCHANGED <<arg, n, wr, map, thrown>>
Find(t) == /\ pc[t] = "find" /\ Go(t, IF arg[t] \in DOMAIN map THEN "ret_r" ELSE "runlock")
           /\ Quiet /\ UNCHANGED <<arg, n, rd, wr, map, thrown>>
RUnlock(t) == /\ pc[t] = "runlock" /\ rd' = rd \ {t} /\ Go(t, "wlock") /\ Quiet /\ UNCHANGED <<arg, n, wr, map, thrown>>
WLock(t) == pc[t] = "wlock" /\ CanWrite(t) /\ wr' = t /\ Go(t, IF Variant = "no_recheck" THEN "compute" ELSE "find2")
            /\ Quiet /\ UNCHANGED <<arg, n, rd, map, thrown>>
Find2(t) == /\ pc[t] = "find2" /\ Go(t, IF arg[t] \in DOMAIN map THEN "ret_w" ELSE "compute")
            /\ Quiet /\ UNCHANGED <<arg, n, rd, wr, map, thrown>>
Begin(t) == /\ pc[t] = "compute" /\ Ev([op |-> "begin", t |-> t, a |-> arg[t]]) /\ Go(t, "computing")
            /\ wr' = IF Variant = "compute_unlocked" THEN 0 ELSE wr
            /\ UNCHANGED <<arg, n, rd, map, thrown>>
End(t) == /\ pc[t] = "computing" /\ Ev([op |-> "end", t |-> t, a |-> arg[t], v |-> arg[t] * 10]) /\ Go(t, "insert")
          /\ UNCHANGED <<arg, n, rd, wr, map, thrown>>
Throw(t) == /\ pc[t] = "computing" /\ ~thrown /\ thrown' = TRUE /\ Ev([op |-> "throw", t |-> t, a |-> arg[t]]) /\ Go(t, "exc_w")
            /\ map' = (IF Variant = "entry_first" THEN (arg[t] :> 0) @@ map ELSE map)     \* an entry made before the call stays
            /\ UNCHANGED <<arg, n, rd, wr>>
Insert(t) == /\ pc[t] = "insert" /\ map' = (arg[t] :> arg[t] * 10) @@ map /\ Go(t, "ret_w") /\ Quiet
             /\ UNCHANGED <<arg, n, rd, wr, thrown>>
Ret(t) == /\ pc[t] \in {"ret_r", "ret_w"} /\ Ev([op |-> "ret", t |-> t, v |-> map[arg[t]]]) /\ Go(t, "idle")
          /\ rd' = rd \ {t} /\ wr' = (IF pc[t] = "ret_w" THEN 0 ELSE wr) /\ UNCHANGED <<arg, n, map, thrown>>
Exc(t) == /\ pc[t] = "exc_w" /\ Ev([op |-> "exc", t |-> t]) /\ Go(t, "idle")
          /\ wr' = (IF Variant = "lost_unlock" THEN wr ELSE 0) /\ UNCHANGED <<arg, n, rd, map, thrown>>

Next == \E t \in T : Call(t) \/ RLock(t) \/ Find(t) \/ RUnlock(t) \/ WLock(t) \/ Find2(t) \/ Begin(t) \/ End(t) \/ Throw(t)
                     \/ Insert(t) \/ Ret(t) \/ Exc(t)
Done == \A t \in T : pc[t] = "idle" /\ n[t] = NC
Spec == Init /\ [][Next \/ (Done /\ UNCHANGED vars)]_vars /\ WF_vars(Next)
InvAllowed == allowed
InvLocks == wr # 0 => rd = {}
InvMem == \A a \in DOMAIN map : (a \in DOMAIN abs.mem /\ abs.mem[a] = map[a])
Live == <>Done
=============================================================================
