------------------------------- MODULE LogAlg -------------------------------
(* The algorithm of log.cpp, one step per lock operation and per sink visited: threads 1..NT log   *)
(* NM messages each; thread NT + 1 adds, removes and re-levels sinks.  Every event is checked      *)
(* against LogEv.  Variant: wrong algorithms to tell apart.                                        *)
EXTENDS LogEv
CONSTANTS NT, NM, NO, NS, Lvls, Variant
VARIABLES pc, n, m, todo, regd, lvl, low, rd, wr, arg, abs, allowed
vars == <<pc, n, m, todo, regd, lvl, low, rd, wr, arg, abs, allowed>>
T == 1..NT
A == NT + 1
K == 1..NS
Never == 7
LowOf(Q) == LET S == {lvl[k] : k \in Q} IN IF S = {} THEN Never ELSE CHOOSE x \in S : \A y \in S : x <= y

Init == /\ pc = [t \in T \cup {A} |-> "idle"] /\ n = [t \in T \cup {A} |-> 0] /\ m = [t \in T |-> 0] /\ todo = [t \in T |-> {}]
        /\ regd = K /\ lvl \in [K -> Lvls] /\ low = LowOf(K) /\ rd = {} /\ wr = 0 /\ arg = [op |-> "none", k |-> 1, v |-> 0]
        /\ abs = InitSt(NT + 1, [k \in K |-> [l |-> lvl[k], kind |-> "rec"]]) /\ allowed = TRUE
Ev(e) == LET S == Step(abs, e) IN IF S = {} THEN allowed' = FALSE /\ abs' = abs ELSE allowed' = allowed /\ abs' \in S
Quiet == UNCHANGED <<abs, allowed>>
Go(t, p) == pc' = [pc EXCEPT ![t] = p]

(* logging *)
Call(t) == /\ pc[t] = "idle" /\ n[t] < NM /\ n' = [n EXCEPT ![t] = @ + 1]
           /\ \E l \in Lvls : m' = [m EXCEPT ![t] = l] /\ Ev([op |-> "msg", t |-> t, id |-> 10 * t + n[t], l |-> l, fl |-> FALSE])
           /\ Go(t, "quick") /\ UNCHANGED <<todo, regd, lvl, low, rd, wr, arg>>
Quick(t) == /\ pc[t] = "quick" /\ Go(t, IF m[t] < low THEN "ret" ELSE "tlock") /\ Quiet /\ UNCHANGED <<n, m, todo, regd, lvl, low, rd, wr, arg>>
Test(t) == /\ pc[t] = "tlock" /\ wr = 0 /\ Quiet
           /\ Go(t, IF \E k \in regd : m[t] >= lvl[k] THEN "dlock" ELSE "ret") /\ UNCHANGED <<n, m, todo, regd, lvl, low, rd, wr, arg>>
DLock(t) == /\ pc[t] = "dlock" /\ (wr = 0 \/ Variant = "no_lock") /\ rd' = rd \cup {t} /\ todo' = [todo EXCEPT ![t] = regd] /\ Go(t, "each") /\ Quiet
            /\ UNCHANGED <<n, m, regd, lvl, low, wr, arg>>
Each(t) == /\ pc[t] = "each" /\ todo[t] # {} /\ UNCHANGED <<n, m, regd, lvl, low, rd, wr, arg>>
           /\ LET k == CHOOSE x \in todo[t] : \A y \in todo[t] : x <= y IN
              IF m[t] >= lvl[k] THEN /\ Ev([op |-> "deliver", t |-> t, s |-> k, id |-> abs.fr[t].id, l |-> m[t], whole |-> TRUE])
                                     /\ Go(t, "handling") /\ todo' = todo
              ELSE todo' = [todo EXCEPT ![t] = @ \ {k}] /\ Quiet /\ pc' = pc
Handled(t) == /\ pc[t] = "handling" /\ LET k == CHOOSE x \in todo[t] : \A y \in todo[t] : x <= y IN
                 Ev([op |-> "handled", t |-> t, s |-> k]) /\ todo' = [todo EXCEPT ![t] = @ \ {k}]
              /\ Go(t, "each") /\ UNCHANGED <<n, m, regd, lvl, low, rd, wr, arg>>
DUnlock(t) == pc[t] = "each" /\ todo[t] = {} /\ rd' = rd \ {t} /\ Go(t, "ret") /\ Quiet /\ UNCHANGED <<n, m, todo, regd, lvl, low, wr, arg>>
Ret(t) == pc[t] = "ret" /\ Ev([op |-> "ret", t |-> t, v |-> TRUE]) /\ Go(t, "idle") /\ UNCHANGED <<n, m, todo, regd, lvl, low, rd, wr, arg>>

(* the sinks *)
Ask == /\ pc[A] = "idle" /\ n[A] < NO /\ n' = [n EXCEPT ![A] = @ + 1] /\ UNCHANGED <<m, todo, regd, lvl, low, rd, wr>>
       /\ \E k \in K :
            \/ arg' = [op |-> "add", k |-> k, v |-> 0] /\ Ev([op |-> "add", t |-> A, s |-> k]) /\ Go(A, "wlock")
            \/ arg' = [op |-> "rem", k |-> k, v |-> 0] /\ Ev([op |-> "rem", t |-> A, s |-> k]) /\ Go(A, "wlock")
            \/ \E v \in Lvls : arg' = [op |-> "lvl", k |-> k, v |-> v] /\ Ev([op |-> "lvl", t |-> A, s |-> k, l |-> v])
                               /\ Go(A, IF Variant = "late_level" THEN "wlock" ELSE "setlvl")
SetLvl == /\ pc[A] = "setlvl" /\ lvl' = [lvl EXCEPT ![arg.k] = arg.v] /\ Quiet /\ UNCHANGED <<n, m, todo, regd, low, rd, wr, arg>>
          /\ Go(A, IF Variant = "readd" THEN "readd" ELSE "wlock")
ReAdd == pc[A] = "readd" /\ wr = 0 /\ rd = {} /\ regd' = regd \ {arg.k} /\ Go(A, "wlock") /\ Quiet /\ UNCHANGED <<n, m, todo, lvl, low, rd, wr, arg>>
WLock == /\ pc[A] = "wlock" /\ wr = 0 /\ (rd = {} \/ Variant = "no_lock") /\ wr' = A /\ Go(A, "change") /\ Quiet
         /\ UNCHANGED <<n, m, todo, regd, lvl, low, rd, arg>>
Change == /\ pc[A] = "change" /\ Go(A, "relow") /\ Quiet /\ UNCHANGED <<n, m, todo, low, rd, wr, arg>>
          /\ regd' = (IF arg.op = "add" \/ (arg.op = "lvl" /\ Variant = "readd") THEN regd \cup {arg.k} ELSE IF arg.op = "rem" THEN regd \ {arg.k} ELSE regd)
          /\ lvl' = (IF Variant = "late_level" /\ arg.op = "lvl" THEN [lvl EXCEPT ![arg.k] = arg.v] ELSE lvl)
ReLow == /\ pc[A] = "relow" /\ low' = (IF Variant = "stale_low" /\ arg.op = "lvl" THEN low ELSE LowOf(regd)) /\ wr' = 0 /\ Go(A, "done") /\ Quiet
         /\ UNCHANGED <<n, m, todo, regd, lvl, rd, arg>>
Done_ == pc[A] = "done" /\ Ev([op |-> "done", t |-> A]) /\ Go(A, "idle") /\ UNCHANGED <<n, m, todo, regd, lvl, low, rd, wr, arg>>

Next == (\E t \in T : Call(t) \/ Quick(t) \/ Test(t) \/ DLock(t) \/ Each(t) \/ Handled(t) \/ DUnlock(t) \/ Ret(t))
          \/ Ask \/ SetLvl \/ ReAdd \/ WLock \/ Change \/ ReLow \/ Done_
Done == (\A t \in T : pc[t] = "idle" /\ n[t] = NM) /\ pc[A] = "idle" /\ n[A] = NO
Spec == Init /\ [][Next \/ (Done /\ UNCHANGED vars)]_vars /\ WF_vars(Next)
InvAllowed == allowed
InvLow == wr = 0 /\ pc[A] \in {"idle", "done"} => low = LowOf(regd)
Live == <>Done
=============================================================================
