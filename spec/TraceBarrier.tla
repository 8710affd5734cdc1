---------------------------- MODULE TraceBarrier ----------------------------
EXTENDS BarrierProps, CpuObs, Json, IOUtils
VARIABLES t, i, b, bad, T
vars == <<t, i, b, bad, T>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
PIDS(k) == 1 .. Traces[k].cfg.nproc
Topo(c) ==
  [ n |-> c.ncpus, smt |-> FALSE, core |-> [x \in 0..(c.ncpus-1) |-> {x}], node |-> [x \in 0..(c.ncpus-1) |-> 0..(c.ncpus-1)],
    async |-> c.async, pub |-> FALSE, resp |-> TRUE, aff |-> "mask", keep |-> c.keep, maxp |-> 0, lewi |-> c.lewi,
    slots |-> c.ncpus, bar |-> ToSet(c.bar), lb |-> c.lb, sel |-> ToSet(c.sel), bid |-> [p \in 1..c.nproc |-> c.bid[p]] ]
ArgsOf(e) == CASE e.op = "init" -> <<ToSet(e.m)>>
               [] e.op = "bar" -> <<e.a, ToSet(e.m)>>
               [] e.op = "bar_reg" -> <<e.n, e.a>>
               [] OTHER -> <<e.a>>
SlotsOf(h) == LET S == SelectSeq([k \in 1..T.slots |-> h.sl[k]], LAMBDA z : z.parts > 0) IN [k \in 1..Len(S) |-> <<S[k].nm, S[k].parts, S[k].cnt, S[k].nt>>]
Diff(x, e) ==
  { f \in {"r", "cb", "v", "blk", "fin", "bar"} :
      ~ CASE f = "blk" -> x.blk = e.blk
          [] f = "r"   -> x.blk \/ e.blk \/ x.r = e.r
          [] f = "v"   -> x.v = e.v
          [] f = "cb"  -> CBag(x.cb) = CBag(e.cb)
          [] f = "fin" -> ToSet(x.fin) = ToSet(e.fin)
          [] f = "bar" -> e.barup => SlotsOf(x.b) = e.bar }
  \cup CpuDiff(T, x.b.g.s, e.st)
(* after a difference: what was seen, as far as it can be told *)
Observed(x, e) ==
  LET h == [x.b EXCEPT !.g.s = CpuSeen(T, @, e.st)]
      up == {k \in 1..T.slots : h.sl[k].parts > 0}  S == SetToSortSeq(up, <)
      g == IF e.barup /\ Len(e.bar) = Len(S)
           THEN [h EXCEPT !.sl = [k \in 1..T.slots |-> IF k \in up THEN LET j == SelectInSeq(S, LAMBDA z : z = k) IN
                                                          [@[k] EXCEPT !.nm = e.bar[j][1], !.parts = e.bar[j][2], !.cnt = e.bar[j][3], !.nt = e.bar[j][4]] ELSE @[k]]]
           ELSE h
      out == {f[1] : f \in ToSet(e.fin)} \cup (IF e.blk THEN {} ELSE {e.p})
      in == (IF e.blk THEN {e.p} ELSE {}) \cup {q \in DOMAIN b.w : BBusy(b, q) /\ q \notin out}
  IN [g EXCEPT !.w = [q \in DOMAIN @ |-> IF q \in out THEN Out ELSE IF q \in in /\ ~BBusy(g, q) THEN IF q = e.p THEN [Out EXCEPT !.k = "bar", !.h = IF e.a = 0 THEN b.P[q].def ELSE e.a] ELSE b.w[q] ELSE @[q]],
               !.q = SelectSeq(b.q, LAMBDA q : q \in in) \o (IF e.blk THEN <<e.p>> ELSE << >>)]
SeenRes(x, e) == [x EXCEPT !.r = e.r, !.cb = e.cb, !.blk = e.blk, !.v = e.v, !.fin = e.fin]
Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ bad = 0
        /\ T = Topo(Traces[t].cfg) /\ b = B0(Topo(Traces[t].cfg), PIDS(t))
Next == /\ bad < 2 /\ i < Len(Traces[t].steps)
        /\ LET e == Traces[t].steps[i+1]
               a == ArgsOf(e)
               x == BDo(T, b, e.p, e.op, a)
               f == IF e.ok THEN Diff(x, e) ELSE {"crash"}
               y == IF e.ok /\ f # {} THEN SeenRes(x, e) ELSE x
               h == IF e.ok /\ f # {} THEN Observed(x, e) ELSE x.b
               v == BBroken(T, b, h, e.p, e.op, a, y)
           IN /\ b' = h /\ i' = i + 1 /\ bad' = IF f \cup v = {} THEN bad ELSE bad + 1
              /\ (f \cup v # {}) => PrintT(<<"MISMATCH", Traces[t].id, i + 1, f \cup v, e.op,
                                             [r |-> x.r, cb |-> x.cb, v |-> x.v, blk |-> x.blk, fin |-> x.fin, sl |-> SlotsOf(x.b), s |-> x.b.g.s, w |-> x.b.w]>>)
        /\ UNCHANGED <<t, T>>
Spec == Init /\ [][Next]_vars
=============================================================================
