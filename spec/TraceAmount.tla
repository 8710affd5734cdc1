---------------------------- MODULE TraceAmount ----------------------------
(* Recorded calls (with their results, callbacks and requests that remain)   *)
(* are calls of the specification.  A step with a second call (p2) is one of *)
(* two processes that called at the same time.  The amount that a process    *)
(* uses is what it is told; G: the states that what was seen until now allows. *)
EXTENDS AmountProps, Json, IOUtils, TLC, Bags
VARIABLES t, i, G, bad
vars == <<t, i, G, bad>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
Topo(c) == [n |-> c.ncpus, async |-> c.async, keep |-> c.keep, greedy |-> c.greedy]
T == Topo(Traces[t].cfg)
Bag(s) == [x \in ToSet(s) |-> Cardinality({k \in 1..Len(s) : s[k] = x})]
(* a message for one that is leaving at the same time may not come *)
Leaving(e) == IF e.p2 = 0 THEN {} ELSE (IF e.op = "fin" THEN {e.p} ELSE {}) \cup (IF e.op2 = "fin" THEN {e.p2} ELSE {})
Seen(cb, e) == Bag(SelectSeq(cb, LAMBDA m : m[1] \notin Leaving(e)))
Diff(x, e) ==
  { f \in {"r", "cb", "rq"} :
      ~ CASE f = "r" -> x.r = e.r /\ x.r2 = e.r2
          [] f = "cb" -> Seen(x.cb, e) = Seen(e.cb, e)
          [] f = "rq" -> ~e.up \/ \A p \in DOMAIN x.g.rq : x.g.rq[p] = e.rq[p] }
(* the number that each process is left with is the one it has been told last *)
Settled(x, e) == \A q \in DOMAIN x.g.P : Heard(e.cb, q) /\ q \notin Leaving(e) => Final(e.cb, q) = Clamp(T, x.g.P[q].cur)
Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ bad = 0 /\ G = {Am0(1..Traces[t].cfg.nproc)}
Outcomes(g, e) ==
  IF e.p2 = 0 THEN {[g |-> x.g, r |-> x.r, r2 |-> 0, cb |-> x.cb, b |-> AmBroken(T, g, x.g, e.p, e.op, e.n, x.r, x.cb)] : x \in AmDo(T, g, e.p, e.op, e.n)}
  ELSE {[g |-> x.g, r |-> x.r, r2 |-> x.r2, cb |-> x.cb, b |-> {}] : x \in AmPar(T, g, [p |-> e.p, op |-> e.op, n |-> e.n], [p |-> e.p2, op |-> e.op2, n |-> e.n2])}
Next == /\ bad = 0 /\ i < Len(Traces[t].steps)
        /\ LET e == Traces[t].steps[i+1]
               S == UNION {Outcomes(g, e) : g \in G}
               M0 == IF e.ok THEN {x \in S : Diff(x, e) = {}} ELSE {}
               M1 == {x \in M0 : Settled(x, e)}
               M == IF M1 # {} THEN M1 ELSE M0
               l == IF M # {} /\ M1 = {} THEN {"last"} \cup (IF e.p2 = 0 THEN {} ELSE {"par"}) ELSE {}
               x == CHOOSE y \in S : TRUE
               f == IF ~e.ok THEN {"crash"} ELSE IF M # {} THEN {} ELSE (IF e.p2 = 0 THEN {} ELSE {"par"}) \cup Diff(x, e)
               v == UNION {y.b : y \in M}
           IN /\ G' = {y.g : y \in M} /\ i' = i + 1 /\ bad' = IF f \cup v = {} THEN 0 ELSE 1
              /\ (f \cup v \cup l # {}) => PrintT(<<"MISMATCH", Traces[t].id, i + 1, f \cup v \cup l, IF e.p2 = 0 THEN e.op ELSE e.op \o "+" \o e.op2, S>>)
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
