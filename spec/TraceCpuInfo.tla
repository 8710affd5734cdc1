--------------------------- MODULE TraceCpuInfo ----------------------------
(* Replays executions recorded from the library against CpuInfo: every line  *)
(* of the file is one execution, the specification starts from its initial   *)
(* state and has to produce, step by step, the recorded results, callbacks   *)
(* and shared-memory contents.  A step with a second call (e.q) is one of    *)
(* two processes that called at the same time, switching at arbitrary        *)
(* accesses to the shared memory: it has to look like one call after the     *)
(* other, in some order.                                                     *)
EXTENDS CpuInfoProps, CpuObs, Json, IOUtils

VARIABLES t, i, g, V, bad, T,
          alt            \* what else the unobserved part of the state may be
vars == <<t, i, g, V, bad, T, alt>>

Traces == ndJsonDeserialize(IOEnv.TRACE)
PIDS(k) == 1 .. Traces[k].cfg.nproc

Topo(c) ==
  LET per == c.ncpus \div c.ncores IN
  LET pern == c.ncpus \div c.nnodes IN
  [ n |-> c.ncpus, smt |-> per > 1,
    core |-> [x \in 0..(c.ncpus-1) |-> {y \in 0..(c.ncpus-1) : y \div per = x \div per}],
    node |-> [x \in 0..(c.ncpus-1) |-> {y \in 0..(c.ncpus-1) : y \div pern = x \div pern}],
    async |-> c.async, pub |-> c.pub, resp |-> c.resp, aff |-> c.aff, keep |-> c.keep,
    maxp |-> c.maxp, lewi |-> c.lewi ]

ArgsOf(e) == CASE e.op \in {"init", "lend_mask", "reclaim_mask", "acquire_mask", "borrow_mask", "return_mask", "into", "outof"}
                    -> <<ToSet(e.m)>>
               [] e.op \in {"acquire_in", "borrow_in"} -> <<e.a, ToSet(e.m)>>
               [] OTHER -> <<e.a>>

Diff(g2, r, cb, e) == (IF r = e.r THEN {} ELSE {"r"}) \cup (IF CBag(cb) = CBag(e.cb) THEN {} ELSE {"cb"}) \cup CpuDiff(T, g2.s, e.st)
(* the node as the implementation shows it *)
Observed(g2, e) == [g2 EXCEPT !.s = CpuSeen(T, @, e.st)]

Init == /\ t \in 1..Len(Traces)
        /\ i = 0 /\ bad = 0
        /\ T = Topo(Traces[t].cfg)
        /\ g = Node0(Topo(Traces[t].cfg), PIDS(t))
        /\ V = V0(PIDS(t))
        /\ alt = {}

(* A step that differs is reported with the clauses that what was observed   *)
(* breaks; the validation goes on from what was observed.                    *)
One(e, s0, V0_) ==
  LET a == ArgsOf(e)
      x == Do(T, s0, e.p, e.op, a)
      d == IF e.ok THEN Diff(x.g, x.r, x.cb, e) ELSE {"crash"}
      h == IF e.ok /\ d # {} THEN Observed(x.g, e) ELSE x.g
      r == IF e.ok THEN e.r ELSE x.r
      cb == IF e.ok THEN e.cb ELSE x.cb
      W == ViewStep(T, s0, V0_, h, e.p, e.op, a, r, cb)
      v == Broken(T, s0, V0_, h, W, e.p, e.op, a, r, cb)
  IN [g |-> h, V |-> W, d |-> d \cup v, n |-> 1, o |-> {}, op |-> e.op, w |-> [r |-> x.r, cb |-> x.cb, s |-> x.g.s]]

(* a query of a CPU that changes meanwhile may answer that it is not available *)
Same(op, r, q) == \/ r = q
                  \/ op = "check" /\ q \in {NOTED, NOUPDT, PERM}
(* With the asynchronous mode a message is on its way while another call goes *)
(* on: it may come twice, or not at all to one that is coming or leaving.        *)
SameCb(cb, e) ==
  LET gone == {x.p : x \in {y \in {e, e.q} : y.op \in {"init", "fin", "disable"}}}
      F(S) == {x \in S : x[1] \notin gone} IN
  IF T.async THEN F(ToSet(cb)) = F(ToSet(e.cb)) ELSE CBag(cb) = CBag(e.cb)
(* two calls at the same time, taken in the order u, w                       *)
Both(e, u, w, s0, V0_) ==
  LET a == ArgsOf(u)   b == ArgsOf(w)
      x == Do(T, s0, u.p, u.op, a)
      y == Do(T, x.g, w.p, w.op, b)
      d == CpuDiff(T, y.g.s, e.st) \cup (IF SameCb(x.cb \o y.cb, e) THEN {} ELSE {"cb"}) \cup (IF Same(u.op, x.r, u.r) /\ Same(w.op, y.r, w.r) THEN {} ELSE {"r"})
      V1 == ViewStep(T, s0, V0_, x.g, u.p, u.op, a, x.r, x.cb)
      V2 == ViewStep(T, x.g, V1, y.g, w.p, w.op, b, y.r, y.cb)
      v == IF d # {} THEN {} ELSE Broken(T, s0, V0_, x.g, V1, u.p, u.op, a, x.r, x.cb) \cup Broken(T, x.g, V1, y.g, V2, w.p, w.op, b, y.r, y.cb)
      o == Observed(y.g, e)
      \* what the second one did, if nothing explains both
      s == IF d = {} THEN {} ELSE Broken(T, x.g, V1, o, ViewStep(T, x.g, V1, o, w.p, w.op, b, w.r, e.cb), w.p, w.op, b, w.r, e.cb)
  IN [g |-> y.g, V |-> V2, d |-> d, v |-> v, s |-> s, w |-> [r |-> <<x.r, y.r>>, cb |-> x.cb \o y.cb, s |-> y.g.s]]
Two(e, s0, V0_) ==
  LET f == e.q
      AB == Both(e, e, f, s0, V0_)
      BA == Both(e, f, e, s0, V0_)
      z == IF AB.d = {} \/ BA.d # {} THEN AB ELSE BA
      nm == e.op \o "+" \o f.op IN
  IF ~e.ok THEN [g |-> s0, V |-> V0_, o |-> {}, d |-> {"crash"}, n |-> 3, op |-> nm, w |-> 0]
  ELSE IF z.d = {} THEN [g |-> z.g, V |-> z.V, d |-> z.v, n |-> 1, o |-> IF AB.d = BA.d THEN {[g |-> BA.g, V |-> BA.V]} ELSE {}, op |-> nm, w |-> z.w]
  ELSE [g |-> s0, V |-> V0_, o |-> {}, d |-> {"par"} \cup z.d \cup (AB.s \cap BA.s), n |-> 3, op |-> nm, w |-> <<AB.w, BA.w>>]

Step(e, k) == IF e.q.op = "" THEN One(e, k.g, k.V) ELSE Two(e, k.g, k.V)
Next == /\ bad < 3 /\ i < Len(Traces[t].steps)
        /\ LET e == Traces[t].steps[i+1]
               z0 == Step(e, [g |-> g, V |-> V])
               fit == {q \in {Step(e, k) : k \in alt} : q.d = {}}
               z == IF z0.d # {} /\ fit # {} THEN CHOOSE q \in fit : TRUE ELSE z0
           IN /\ g' = z.g /\ V' = z.V /\ i' = i + 1 /\ bad' = IF z.d = {} THEN bad ELSE bad + z.n
              /\ alt' = (UNION {q.o : q \in fit \cup {z}} \cup {[g |-> q.g, V |-> q.V] : q \in fit}) \ {[g |-> z.g, V |-> z.V]}
              /\ (z.d # {}) => PrintT(<<"MISMATCH", Traces[t].id, i + 1, z.d, z.op, z.w>>)
        /\ UNCHANGED <<t, T>>
Spec == Init /\ [][Next]_vars
=============================================================================
