------------------------------ MODULE CacheAlg ------------------------------
(* The algorithm of file_resource_cache, one step per lock operation, file access and creation,    *)
(* with NT requesting threads and an environment that changes the files and the clock at any       *)
(* moment.  Every event is checked against CacheEv.  Variant: wrong algorithms to tell apart.      *)
EXTENDS CacheEv
CONSTANTS NT, NF, NC, NE, Variant
VARIABLES pc, rq, n, ne, rd, wr, kept, wall, abs, allowed
vars == <<pc, rq, n, ne, rd, wr, kept, wall, abs, allowed>>
T == 1..NT
F == 1..NF
NoKept == [ver |-> 0, mt |-> 0, chk |-> 0]

Init == /\ pc = [t \in T |-> "idle"] /\ rq = [t \in T |-> 1] /\ n = [t \in T |-> 0] /\ ne = 0 /\ rd = {} /\ wr = 0
        /\ kept = [f \in F |-> NoKept] /\ wall = [t \in T |-> [c |-> 0, m |-> 0, v |-> 0]]
        /\ abs = [InitSt(NT, NF) EXCEPT !.fs[1] = [ver |-> 1, mt |-> 1, good |-> TRUE]] /\ allowed = TRUE
Ev(e) == LET S == Step(abs, e) IN IF S = {} THEN allowed' = FALSE /\ abs' = abs ELSE allowed' = allowed /\ abs' \in S
Quiet == UNCHANGED <<abs, allowed>>
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
K(t) == kept[rq[t]]
File(t) == abs.fs[rq[t]]

EnvWrite == /\ ne < NE /\ ne' = ne + 1
            /\ \/ \E f \in F, g \in BOOLEAN : Ev([op |-> "write", f |-> f, v |-> ne + 2, m |-> ne + 2, good |-> g])
               \/ \E f \in F : Ev([op |-> "delete", f |-> f])
               \/ \E d \in {1, 4} : Ev([op |-> "tick", d |-> d])
            /\ UNCHANGED <<pc, rq, n, rd, wr, kept, wall>>
Call(t) == /\ pc[t] = "idle" /\ n[t] < NC /\ n' = [n EXCEPT ![t] = @ + 1]
           /\ \E f \in F : rq' = [rq EXCEPT ![t] = f] /\ Ev([op |-> "call", t |-> t, f |-> f])
           /\ Go(t, "rlock") /\ UNCHANGED <<ne, rd, wr, kept, wall>>
RLock(t) == /\ pc[t] = "rlock" /\ wr = 0 /\ rd' = rd \cup {t} /\ Go(t, "find") /\ Quiet /\ UNCHANGED <<rq, n, ne, wr, kept, wall>>
Find(t) == /\ pc[t] = "find" /\ Quiet /\ UNCHANGED <<rq, n, ne, rd, wr, kept>>
           /\ IF K(t).ver # 0
              THEN /\ wall' = [wall EXCEPT ![t].c = abs.clock]
                   /\ Go(t, IF abs.clock - K(t).chk > Interval THEN "unlock_due" ELSE "clone")
              ELSE wall' = wall /\ Go(t, IF File(t).mt = 0 THEN "fail_r" ELSE "unlock_new")
RUnlock(t) == /\ pc[t] \in {"unlock_due", "unlock_new"} /\ rd' = rd \ {t} /\ Quiet
              /\ Go(t, IF pc[t] = "unlock_due" THEN "wlock_due" ELSE "wlock_new") /\ UNCHANGED <<rq, n, ne, wr, kept, wall>>
WLock(t) == /\ pc[t] \in {"wlock_due", "wlock_new"} /\ (wr = 0 \/ Variant = "no_write_lock") /\ (rd = {} \/ Variant = "no_write_lock")
            /\ wr' = t /\ Go(t, IF pc[t] = "wlock_due" THEN "stat_due" ELSE IF Variant = "no_recheck" \/ K(t).ver = 0 THEN "stat_new" ELSE "wunlock")
            /\ Quiet /\ UNCHANGED <<rq, n, ne, rd, kept, wall>>
StatDue(t) == /\ pc[t] = "stat_due" /\ Quiet /\ UNCHANGED <<rq, n, ne, rd, wr>>
              /\ LET early == Variant = "time_first" IN
                 IF File(t).mt = 0 THEN Go(t, "fail_w") /\ wall' = wall /\ kept' = (IF early THEN [kept EXCEPT ![rq[t]].chk = wall[t].c] ELSE kept)
                 ELSE /\ wall' = [wall EXCEPT ![t].m = File(t).mt]
                      /\ Go(t, IF File(t).mt = K(t).mt THEN "checked" ELSE "create")
                      /\ kept' = IF early THEN [kept EXCEPT ![rq[t]].chk = wall[t].c, ![rq[t]].mt = File(t).mt] ELSE kept
Checked(t) == /\ pc[t] = "checked" /\ kept' = [kept EXCEPT ![rq[t]].chk = wall[t].c] /\ Go(t, "wunlock") /\ Quiet
              /\ UNCHANGED <<rq, n, ne, rd, wr, wall>>
StatNew(t) == /\ pc[t] = "stat_new" /\ Quiet /\ UNCHANGED <<rq, n, ne, rd, wr, kept>>
              /\ IF File(t).mt = 0 THEN Go(t, "fail_w") /\ wall' = wall
                 ELSE wall' = [wall EXCEPT ![t].m = File(t).mt, ![t].c = abs.clock] /\ Go(t, "create")
Create(t) == /\ pc[t] = "create" /\ Ev([op |-> "begin", t |-> t, f |-> rq[t]]) /\ Go(t, "creating") /\ UNCHANGED <<rq, n, ne, rd, wr, kept, wall>>
Creating1(t) == /\ pc[t] = "creating" /\ UNCHANGED <<rq, n, ne, rd, wr, kept>>
                /\ IF File(t).good THEN /\ Ev([op |-> "end", t |-> t, f |-> rq[t], v |-> File(t).ver]) /\ Go(t, "store")
                                        /\ wall' = [wall EXCEPT ![t].v = File(t).ver]
                   ELSE Ev([op |-> "throw", t |-> t, f |-> rq[t]]) /\ Go(t, "fail_w") /\ wall' = wall
Store(t) == /\ pc[t] = "store" /\ kept' = [kept EXCEPT ![rq[t]] = [ver |-> wall[t].v, mt |-> wall[t].m, chk |-> wall[t].c]]
            /\ Go(t, "wunlock") /\ Quiet /\ UNCHANGED <<rq, n, ne, rd, wr, wall>>
WUnlock(t) == pc[t] = "wunlock" /\ wr' = 0 /\ Go(t, "rlock2") /\ Quiet /\ UNCHANGED <<rq, n, ne, rd, kept, wall>>
RLock2(t) == pc[t] = "rlock2" /\ wr = 0 /\ rd' = rd \cup {t} /\ Go(t, "clone") /\ Quiet /\ UNCHANGED <<rq, n, ne, wr, kept, wall>>
Clone(t) == /\ pc[t] = "clone" /\ Ev([op |-> "ret", t |-> t, v |-> K(t).ver]) /\ rd' = rd \ {t} /\ Go(t, "idle")
            /\ UNCHANGED <<rq, n, ne, wr, kept, wall>>
Fail_(t) == /\ pc[t] \in {"fail_r", "fail_w"} /\ Ev([op |-> "exc", t |-> t]) /\ Go(t, "idle") /\ rd' = rd \ {t}
            /\ wr' = (IF pc[t] = "fail_w" THEN 0 ELSE wr) /\ UNCHANGED <<rq, n, ne, kept, wall>>

Next == EnvWrite \/ \E t \in T : Call(t) \/ RLock(t) \/ Find(t) \/ RUnlock(t) \/ WLock(t) \/ StatDue(t) \/ Checked(t) \/ StatNew(t)
          \/ Create(t) \/ Creating1(t) \/ Store(t) \/ WUnlock(t) \/ RLock2(t) \/ Clone(t) \/ Fail_(t)
Done == \A t \in T : pc[t] = "idle" /\ n[t] = NC
Spec == Init /\ [][Next \/ (Done /\ UNCHANGED vars)]_vars /\ WF_vars(Next)
InvAllowed == allowed
InvKept == \A f \in F : kept[f].ver # 0 => kept[f].mt # 0
Live == <>Done
=============================================================================
