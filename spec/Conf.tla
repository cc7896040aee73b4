-------------------------------- MODULE Conf --------------------------------
(* Shared vocabulary of the specifications and of their conformance configurations.                *)
(* Every public call of the library is an operation record o = [op |-> "name", args ...]; every    *)
(* component specification defines  Apply(s, o) = [st |-> next state, ret |-> result]  and the     *)
(* projection  Obs(s)  that the driver reports after each call.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Ok == [ok |-> TRUE]
OkV(v) == [ok |-> TRUE, v |-> v]
Fail == [ok |-> FALSE]
R(s, r) == [st |-> s, ret |-> r]

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* one emitted behaviour: the path to the source state and the call under test *)
EmitB(path, call) == PrintT("@B" \o ToJson([p |-> path, e |-> call]))
EmitBI(init, path, call) == PrintT("@B" \o ToJson([i |-> init, p |-> path, e |-> call]))
EmitSeq(path) == PrintT("@B" \o ToJson(path))

Trace == ndJsonDeserialize(IOEnv.TRACE)
=============================================================================
