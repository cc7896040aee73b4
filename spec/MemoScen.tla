------------------------------ MODULE MemoScen ------------------------------
(* Scenarios for the real code: what each thread calls (0: size()), and which arguments throw the  *)
(* first time.  Threads are interchangeable: only one order of them is used.                       *)
EXTENDS Conf
CONSTANTS NT, MaxCalls, Args, Throwing
VARIABLE sc
Seqs == UNION {[1..k -> Args \cup {0}] : k \in 1..MaxCalls}
Code(q) == FoldSeq(LAMBDA x, acc : acc * 7 + x + 1, 0, q)
Init == \E k \in 2..NT : \E c \in [1..k -> Seqs] : \E th \in SUBSET Throwing :
          /\ \A i \in 1..(k - 1) : Code(c[i]) <= Code(c[i + 1])
          /\ \E i, j \in 1..k : i # j /\ \E x \in 1..Len(c[i]), y \in 1..Len(c[j]) : c[i][x] # 0 /\ c[i][x] = c[j][y]
          /\ sc = [calls |-> c, throws |-> SetToSeq(th)]
Next == FALSE /\ UNCHANGED sc
Spec == Init /\ [][Next]_sc
Emit == EmitSeq(sc)
=============================================================================
