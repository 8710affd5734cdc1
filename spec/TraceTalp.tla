----------------------------- MODULE TraceTalp -----------------------------
EXTENDS TalpProps, Json, IOUtils
VARIABLES t, i, h, bad, T
vars == <<t, i, h, bad, T>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
PIDS(k) == 1 .. Traces[k].cfg.nproc
Cfg(c) == [n |-> c.ncpus, mult |-> c.mult, lb |-> c.lb, cp |-> [p \in 1..c.nproc |-> c.cp[p]],
           o |-> [p \in 1..c.nproc |-> LET z == c.o[p] IN [talp |-> z.talp, ext |-> z.ext, node |-> z.node, bar |-> z.bar,
                    sel |-> [all |-> z.sel.all, inc |-> z.sel.inc, names |-> ToSet(z.sel.names)]]]]
RegT(r) == <<r.nm, r.n, r.avg, r.meas, r.res, r.cm, r.cp, r.ct, r.st, r.sp, r.el, r.u, r.m, r.lb, r.sc, r.se>>
Regs(g, p) == [k \in DOMAIN g.P[p].regs |-> RegT(g.P[p].regs[k])]
Tal(g) == IF Users(g) = {} THEN << >> ELSE LET s == SelectSeq(g.S.slots, LAMBDA z : z.pid # 0) IN [k \in DOMAIN s |-> <<s[k].pid, s[k].nm, s[k].m, s[k].u>>]
(* efficiencies in units of 1/10000 *)
Abs(v) == IF v < 0 THEN -v ELSE v
Near(v, num, den) == Abs(v * den - 10000 * num) <= den
(* the time elapsed, on average, may be rounded down to a whole number *)
EfficOf(x, pm, num, den) ==
  IF num < den THEN pm = <<0, 0, 0>>
  ELSE /\ Near(pm[1], x[2], x[2] + x[3]) /\ Near(pm[2], x[4] * den, num)
       /\ IF x[4] = 0 THEN pm[3] = 0 ELSE Near(pm[3], x[2], x[4] * x[1])
Effic(x, pm) ==
  IF Len(x) # 5 THEN pm = << >>
  ELSE /\ Len(pm) = 3
       /\ \/ EfficOf(x, pm, (x[2] + x[3]) \div x[1], 1)
          \/ IF x[2] + x[3] = 0 THEN pm = <<0, 0, 0>>
             ELSE /\ Near(pm[1], x[2], x[2] + x[3]) /\ Near(pm[2], x[4] * x[1], x[2] + x[3])
                  /\ IF x[4] = 0 THEN pm[3] = 0 ELSE Near(pm[3], x[2], x[4] * x[1])
Fin(f) == <<f.p, f.r, f.x, f.nm>>
Diff(z, e) ==
  { f \in {"r", "v", "x", "pm", "blk", "fin", "reg", "tal"} :
      ~ CASE f = "blk" -> z.blk = e.blk
          [] f = "r"   -> z.blk \/ e.blk \/ z.r = e.r
          [] f = "v"   -> z.v = e.v
          [] f = "x"   -> z.blk \/ (z.x = e.x /\ z.nm = e.nm)
          [] f = "pm"  -> (e.x # z.x \/ e.blk) \/ e.op \notin {"query", "collect"} \/ Effic(e.x, e.pm)
          [] f = "fin" -> ToSet(z.fin) = {Fin(y) : y \in ToSet(e.fin)} /\ \A y \in ToSet(e.fin) : Effic(y.x, y.pm)
          [] f = "reg" -> \A p \in DOMAIN z.h.P : Regs(z.h, p) = e.reg[p]
          [] f = "tal" -> Tal(z.h) = e.tal }
SeenReg(r, o) == [r EXCEPT !.n = o[2], !.avg = o[3], !.meas = o[4], !.res = o[5], !.cm = o[6], !.cp = o[7], !.ct = o[8], !.st = o[9], !.sp = o[10], !.el = o[11],
                           !.u = o[12], !.m = o[13], !.lb = o[14], !.sc = o[15], !.se = o[16]]
Observed(z, e) ==
  LET g == [z.h EXCEPT !.P = [p \in DOMAIN @ |-> IF Len(@[p].regs) = Len(e.reg[p]) THEN [@[p] EXCEPT !.regs = [k \in DOMAIN @ |-> SeenReg(@[k], e.reg[p][k])]] ELSE @[p]]]
      up == SelectSeq([k \in DOMAIN g.S.slots |-> k], LAMBDA k : g.S.slots[k].pid # 0)
  IN IF Len(up) = Len(e.tal) THEN [g EXCEPT !.S.slots = [k \in DOMAIN @ |-> IF @[k].pid = 0 THEN @[k] ELSE LET o == e.tal[SelectInSeq(up, LAMBDA y : y = k)] IN
                                      [@[k] EXCEPT !.pid = o[1], !.nm = o[2], !.m = o[3], !.u = o[4]]]] ELSE g
SeenRes(z, e) == [z EXCEPT !.r = e.r, !.v = e.v, !.x = e.x, !.nm = e.nm, !.fin = [k \in DOMAIN e.fin |-> Fin(e.fin[k])]]
Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ bad = 0
        /\ T = Cfg(Traces[t].cfg) /\ h = H0(PIDS(t))
Next == /\ bad < 2 /\ i < Len(Traces[t].steps)
        /\ LET e == Traces[t].steps[i+1]
               z == TDo(T, h, e.p, e.t, e.op, e.a)
               f == IF e.ok THEN Diff(z, e) ELSE {"crash"}
               sync == e.ok /\ f # {} /\ e.blk = z.blk
               y == IF sync THEN SeenRes(z, e) ELSE z
               g == IF sync THEN Observed(z, e) ELSE z.h
               v == IF sync \/ f = {} THEN TBroken(T, h, g, e.p, e.t, e.op, e.a, y) ELSE {}
           IN /\ h' = g /\ i' = i + 1 /\ bad' = IF f \cup v = {} THEN bad ELSE IF e.ok /\ e.blk = z.blk THEN bad + 1 ELSE 2
              /\ (f \cup v # {}) => PrintT(<<"MISMATCH", Traces[t].id, i + 1, f \cup v, e.op,
                                             [r |-> z.r, v |-> z.v, x |-> z.x, nm |-> z.nm, blk |-> z.blk, fin |-> z.fin, reg |-> [p \in DOMAIN z.h.P |-> Regs(z.h, p)], tal |-> Tal(z.h), open |-> [p \in DOMAIN z.h.P |-> z.h.P[p].open], smp |-> [p \in DOMAIN z.h.P |-> z.h.P[p].smp]]>>)
        /\ UNCHANGED <<t, T>>
Spec == Init /\ [][Next]_vars
=============================================================================
