------------------------------- MODULE TestFw -------------------------------
(* The test framework.  A case is what it does in its first, second, ... run: a sequence of checks   *)
(* that hold ("ok"), fail ("bad") or throw ("cthrow"), and of exceptions: with a message ("throw"),  *)
(* without ("empty"), not a std::exception at all ("int"), or such a one within a check ("cint").   *)
EXTENDS Conf

Ends == {"throw", "empty", "int", "cint"}
Zero == [checks |-> 0, passed |-> 0, failed |-> 0, thrown |-> FALSE]
RECURSIVE Eval(_, _)
Eval(ss, r) ==
  IF ss = <<>> THEN r ELSE
  CASE Head(ss) \in Ends -> [r EXCEPT !.thrown = TRUE]
    [] Head(ss) = "ok" -> Eval(Tail(ss), [r EXCEPT !.checks = @ + 1, !.passed = @ + 1])
    [] OTHER -> Eval(Tail(ss), [r EXCEPT !.checks = @ + 1, !.failed = @ + 1])
Result(ss) == Eval(ss, Zero)
Success(ss) == LET r == Result(ss) IN r.failed = 0 /\ ~r.thrown
(* said to have passed: everything held, and there was something *)
Passed(ss) == Success(ss) /\ Result(ss).passed > 0
RunOf(c, k) == IF c = <<>> THEN <<>> ELSE c[((k - 1) % Len(c)) + 1]
Failures(cs, k) == Cardinality({i \in DOMAIN cs : ~Success(RunOf(cs[i], k))})

(* one case, run on its own n times *)
Show(ss) == LET r == Result(ss) IN [checks |-> r.checks, passed |-> r.passed, failed |-> r.failed, thrown |-> r.thrown, success |-> Success(ss)]
(* all cases, run one after another or all at once; "main" is a whole program, of which the exit code counts *)
CaseSaid(ss) == [passed |-> Passed(ss), complained |-> ~Success(ss)]
SuiteRun(cs, k, how) == [failed |-> IF how = "main" THEN (IF Failures(cs, k) = 0 THEN 0 ELSE 1) ELSE Failures(cs, k),
                         ran |-> [i \in DOMAIN cs |-> 1], order |-> IF how = "async" THEN <<>> ELSE [i \in DOMAIN cs |-> i],
                         said |-> IF how = "main" THEN <<>> ELSE [i \in DOMAIN cs |-> CaseSaid(RunOf(cs[i], k))],
                         clear |-> (how # "main" /\ Failures(cs, k) = 0)]
RECURSIVE Many(_, _)
Many(c, n) == IF n = 0 THEN <<>> ELSE c \o Many(c, n - 1)
Cases(o) == Many(o.cs, o.times)
Ret(o) == CASE o.op = "case" -> OkV([k \in 1..o.n |-> Show(RunOf(o.c, k))])
            [] o.op = "suite" -> OkV([k \in DOMAIN o.how |-> SuiteRun(Cases(o), 1 + Cardinality({j \in 1..(k - 1) : o.how[j] # "main"}), o.how[k])])

(* What is known to go wrong instead (known_findings.txt): the result of a run is added to that of the runs before, *)
(* an exception without message is no failure, one that is not a std::exception ends the program, and an exit code  *)
(* has eight bits.                                                                                                  *)
RECURSIVE DEval(_, _)
DEval(ss, r) ==
  IF ss = <<>> THEN [r EXCEPT !.end = "none"] ELSE
  CASE Head(ss) \in {"int", "cint"} -> [r EXCEPT !.end = "dead"]
    [] Head(ss) = "empty" -> [r EXCEPT !.thrown = FALSE, !.end = "exc"]
    [] Head(ss) = "throw" -> [r EXCEPT !.thrown = TRUE, !.end = "exc"]
    [] Head(ss) = "ok" -> DEval(Tail(ss), [r EXCEPT !.checks = @ + 1, !.passed = @ + 1])
    [] OTHER -> DEval(Tail(ss), [r EXCEPT !.checks = @ + 1, !.failed = @ + 1, !.bad = TRUE])
RECURSIVE DRun(_, _)
DRun(c, k) == IF k = 0 THEN Zero @@ [end |-> "none", bad |-> FALSE] ELSE DEval(RunOf(c, k), [DRun(c, k - 1) EXCEPT !.bad = FALSE])
DSuccess(r) == r.failed = 0 /\ ~r.thrown
DShow(r) == [checks |-> r.checks, passed |-> r.passed, failed |-> r.failed, thrown |-> r.thrown, success |-> DSuccess(r)]
DSaid(r) == [passed |-> r.end = "none" /\ DSuccess(r) /\ r.passed > 0, complained |-> r.end = "exc" \/ r.bad \/ (~DSuccess(r) /\ r.checks > 1)]
DSuite(cs, k, how) ==
  LET r == [i \in DOMAIN cs |-> DRun(cs[i], k)] n == Cardinality({i \in DOMAIN cs : ~DSuccess(r[i])}) IN
  IF \E i \in DOMAIN cs : r[i].end = "dead" THEN [failed |-> 1000, ran |-> [i \in DOMAIN cs |-> 0], order |-> <<>>, said |-> <<>>, clear |-> FALSE]
  ELSE [failed |-> IF how = "main" THEN (IF n % 256 = 0 THEN 0 ELSE 1) ELSE n, ran |-> [i \in DOMAIN cs |-> 1], order |-> IF how = "async" THEN <<>> ELSE [i \in DOMAIN cs |-> i],
        said |-> IF how = "main" THEN <<>> ELSE [i \in DOMAIN cs |-> DSaid(r[i])], clear |-> (how # "main" /\ n = 0)]
Died == [ok |-> FALSE, died |-> TRUE]
Run(o, k) == 1 + Cardinality({j \in 1..(k - 1) : o.how[j] # "main"})
DRet(o) == CASE o.op = "case" -> IF \E k \in 1..o.n : DRun(o.c, k).end = "dead" THEN Died ELSE OkV([k \in 1..o.n |-> DShow(DRun(o.c, k))])
             [] o.op = "suite" -> LET cs == Cases(o) IN
                                  IF \E k \in DOMAIN o.how : o.how[k] # "main" /\ \E i \in DOMAIN cs : DRun(cs[i], Run(o, k)).end = "dead" THEN Died
                                  ELSE OkV([k \in DOMAIN o.how |-> DSuite(cs, Run(o, k), o.how[k])])
Does(o, what) == CASE o.op = "case" -> \E k \in 1..o.n : \E i \in DOMAIN RunOf(o.c, k) : RunOf(o.c, k)[i] \in what
                   [] o.op = "suite" -> \E m \in DOMAIN o.cs, k \in DOMAIN o.how : \E i \in DOMAIN RunOf(o.cs[m], Run(o, k)) : RunOf(o.cs[m], Run(o, k))[i] \in what
Key(o) == IF DRet(o) = Ret(o) THEN "" ELSE IF Does(o, {"int", "cint"}) THEN "not-a-std-exception" ELSE IF Does(o, {"empty"}) THEN "exception-without-message"
          ELSE IF o.op = "suite" /\ o.times > 100 THEN "exit-code-256" ELSE "rerun"

----------------------------------------------------------------------------
CONSTANTS Steps, MaxSteps, MaxCases, Listed
VARIABLES cs, done
vars == <<cs, done>>
Scripts == UNION {[1..m -> Steps] : m \in 0..MaxSteps}
Init == cs = <<>> /\ done = FALSE
AddCase == Len(cs) < MaxCases /\ \E a \in Scripts : cs' = Append(cs, <<a>>) /\ UNCHANGED done
Turn == ~done /\ cs # <<>> /\ Len(cs[1]) = 1 /\ \E a \in Scripts : cs' = [cs EXCEPT ![1] = Append(@, a)] /\ done' = TRUE
Next == AddCase \/ Turn
Spec == Init /\ [][Next]_vars
InvPass == \A i \in DOMAIN cs : Passed(cs[i][1]) <=> (cs[i][1] # <<>> /\ \A k \in DOMAIN cs[i][1] : cs[i][1][k] = "ok")
E1(o) == [o EXCEPT !.ret = Ret(o)] @@ [key |-> Key(o), alt |-> DRet(o)]
Emit == cs # <<>> => EmitSeq(<<E1([op |-> "suite", cs |-> cs, times |-> 1, how |-> <<"sync", "sync">>, ret |-> 0]), E1([op |-> "suite", cs |-> cs, times |-> 1, how |-> <<"async", "sync", "async">>, ret |-> 0]),
                  E1([op |-> "suite", cs |-> cs, times |-> 1, how |-> <<"main">>, ret |-> 0])>> \o
                (IF Len(cs) = 1 THEN <<E1([op |-> "case", c |-> cs[1], n |-> 2, ret |-> 0])>> ELSE <<>>))
=============================================================================
