------------------------------- MODULE CacheEv -------------------------------
(* What users of a file_resource_cache may observe: requests and their results, the creations of   *)
(* resources the cache makes, and, from outside, changes of files and of the clock.  Step(s, e):   *)
(* the states after event e, empty when e is not allowed.                                          *)
(*   fs[f]    the file: exists, version of its contents, modification time (0 when absent), and    *)
(*            whether a resource can be made from it                                               *)
(*   cache[f] ver: version of the resource kept (0: none); mts: the modification times that may be *)
(*            recorded for it; lo..hi: when it may last have been checked                          *)
(*   fr[t]    the running request of thread t: mts: times the file has had during it; due: a check *)
(*            for changes may be due; cert: it is due; vers: the versions it may return            *)
EXTENDS Conf

NoReq == [f |-> 0, ph |-> "none", c0 |-> 0, minc |-> 0, due |-> FALSE, cert |-> FALSE, mts |-> {}, vers |-> {}]
NoRes == [ver |-> 0, mts |-> {}, lo |-> 0, hi |-> 0]
Interval == 3

InitSt(nt, nf) == [clock |-> 100, fs |-> [f \in 1..nf |-> [ver |-> 0, mt |-> 0, good |-> FALSE]],
                   cache |-> [f \in 1..nf |-> NoRes], fr |-> [t \in 1..nt |-> NoReq]]

Active(s, f) == {t \in DOMAIN s.fr : s.fr[t].ph # "none" /\ s.fr[t].f = f}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
If(c, s) == IF c THEN {s} ELSE {}

PossDue(c, clock) == c.ver = 0 \/ clock - c.lo > Interval
CertDue(s, f) == /\ s.cache[f].ver # 0 /\ s.clock - s.cache[f].hi > Interval
                 /\ \A u \in Active(s, f) : ~s.fr[u].due
Creating(s, f) == \E t \in Active(s, f) : s.fr[t].ph = "creating"

Touch(s, f) == [s EXCEPT !.fr = [t \in DOMAIN @ |-> IF t \in Active(s, f) THEN [@[t] EXCEPT !.mts = @ \cup {s.fs[f].mt}] ELSE @[t]]]

Step(s, e) ==
  CASE e.op = "write" -> {Touch([s EXCEPT !.fs[e.f] = [ver |-> e.v, mt |-> e.m, good |-> e.good]], e.f)}
    [] e.op = "delete" -> {Touch([s EXCEPT !.fs[e.f] = [ver |-> 0, mt |-> 0, good |-> FALSE]], e.f)}
    [] e.op = "tick" -> {LET c == s.clock + e.d IN
                         [s EXCEPT !.clock = c, !.fr = [t \in DOMAIN @ |-> IF @[t].ph = "none" THEN @[t] ELSE
                                                         [@[t] EXCEPT !.due = @ \/ PossDue(s.cache[s.fr[t].f], c)]]]}
    [] e.op = "call" ->
         LET c == s.cache[e.f]
             stale == CertDue(s, e.f) /\ s.fs[e.f].mt \notin c.mts IN
         If(s.fr[e.t].ph = "none",
            [s EXCEPT !.fr[e.t] = [f |-> e.f, ph |-> "called", c0 |-> s.clock,
               minc |-> MinS({s.clock} \cup {s.fr[u].minc : u \in Active(s, e.f)}),
               due |-> PossDue(c, s.clock), cert |-> CertDue(s, e.f), mts |-> {s.fs[e.f].mt},
               vers |-> IF c.ver = 0 \/ stale THEN {} ELSE {c.ver}]])
    [] e.op = "begin" ->
         LET q == s.fr[e.t]
             c == s.cache[e.f] IN
         If(q.ph = "called" /\ q.f = e.f /\ ~Creating(s, e.f)
              /\ (c.ver = 0 \/ (q.due /\ \E m \in q.mts : m # 0 /\ c.mts # {m})),
            [s EXCEPT !.fr[e.t] = [q EXCEPT !.ph = "creating", !.mts = @ \ {0}]])
    [] e.op = "end" ->
         LET q == s.fr[e.t] IN
         If(q.ph = "creating" /\ q.f = e.f,
            [s EXCEPT !.cache[e.f] = [ver |-> e.v, mts |-> q.mts, lo |-> q.minc, hi |-> s.clock],
                      !.fr = [t \in DOMAIN @ |-> IF t = e.t THEN [q EXCEPT !.ph = "created", !.vers = {e.v}]
                                                 ELSE IF t \in Active(s, e.f) THEN [@[t] EXCEPT !.vers = @ \cup {e.v}] ELSE @[t]]])
    [] e.op = "throw" -> LET q == s.fr[e.t] IN If(q.ph = "creating" /\ q.f = e.f, [s EXCEPT !.fr[e.t].ph = "threw"])
    [] e.op = "ret" ->
         LET q == s.fr[e.t]
             c == s.cache[q.f] IN
         If(q.ph \in {"called", "created"} /\ e.v \in q.vers,
            [s EXCEPT !.fr[e.t] = NoReq,
                      !.cache[q.f] = IF q.ph = "called" /\ q.due
                                     THEN [c EXCEPT !.lo = IF q.cert THEN Max2(c.lo, q.minc) ELSE @, !.hi = s.clock] ELSE c])
    [] e.op = "exc" ->
         LET q == s.fr[e.t] IN If(q.ph = "threw" \/ (q.ph = "called" /\ q.due /\ 0 \in q.mts), [s EXCEPT !.fr[e.t] = NoReq])
    [] e.op = "final" -> If((\A t \in DOMAIN s.fr : s.fr[t].ph = "none") /\ e.live = Cardinality({f \in DOMAIN s.cache : s.cache[f].ver # 0}), s)
    [] OTHER -> {}
=============================================================================
