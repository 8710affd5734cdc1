----------------------------- MODULE TraceDrom -----------------------------
(* Replays executions recorded from the library against Drom: results,       *)
(* callbacks, masks, blocking, the registry and the CPU table.               *)
EXTENDS DromProps, CpuObs, Json, IOUtils

VARIABLES t, i, d, K, bad, T
vars == <<t, i, d, K, bad, T>>

Traces == ndJsonDeserialize(IOEnv.TRACE)
PIDS(k) == 1 .. Traces[k].cfg.nproc

Topo(c) ==
  [ n |-> c.ncpus, smt |-> FALSE, core |-> [x \in 0..(c.ncpus-1) |-> {x}], node |-> [x \in 0..(c.ncpus-1) |-> 0..(c.ncpus-1)],
    async |-> c.async, pub |-> FALSE, resp |-> TRUE, aff |-> "mask", keep |-> FALSE, maxp |-> 0, lewi |-> c.lewi,
    par |-> [x \in {c.par[k][1] : k \in 1..Len(c.par)} |-> c.par[CHOOSE k \in 1..Len(c.par) : c.par[k][1] = x][2]],
    drom |-> c.drom, retst |-> c.retst ]

ArgsOf(e) == CASE e.op = "init" -> <<ToSet(e.m), e.a>>
               [] e.op \in {"preinit", "lend_mask", "reclaim_mask", "acquire_mask", "borrow_mask", "return_mask"} -> <<ToSet(e.m)>>
               [] e.op \in {"drom_preinit", "drom_set"} -> <<e.a, ToSet(e.m), ToSet(e.f)>>
               [] e.op \in {"drom_post", "drom_get"} -> <<e.a, ToSet(e.f)>>
               [] OTHER -> <<e.a>>

(* callbacks: the argument of "P" is a mask *)
ObsCb(cb) == [k \in 1..Len(cb) |-> IF cb[k].k = "P" THEN <<cb[k].p, "P", ToSet(cb[k].m)>> ELSE <<cb[k].p, cb[k].k, cb[k].c>>]
SameBag(x, y) == /\ Len(x) = Len(y)
                 /\ {<<z[1], z[2]>> : z \in ToSet(x)} = {<<z[1], z[2]>> : z \in ToSet(y)}
                 /\ \A z \in ToSet(x) : z[2] = "P" => \E u \in ToSet(y) : u[2] = "P" /\ u[1] = z[1] /\ u[3] = z[3]
                 /\ LET E(s) == SelectSeq(s, LAMBDA z : z[2] # "P") IN CBag(E(x)) = CBag(E(y))
Val(e) == IF e.op = "drom_pids" THEN e.l ELSE IF e.op = "drom_ncpus" THEN {e.v} ELSE ToSet(e.vm)
SlotSet(q) == {<<q.sl[k].pid, q.sl[k].cur, q.sl[k].fut, q.sl[k].stl, q.sl[k].dirty>> : k \in {j \in 1..T.n : q.sl[j].pid # 0}}
SeenSet(o) == {<<o[k].pid, ToSet(o[k].cur), ToSet(o[k].fut), ToSet(o[k].stl), o[k].dirty = 1>> : k \in 1..Len(o)}
FinSet(x) == {<<x[k][1], x[k][2], x[k][3]>> : k \in 1..Len(x)}
ObsFin(e) == {<<e.fin[k].p, e.fin[k].r, ToSet(e.fin[k].m)>> : k \in 1..Len(e.fin)}

Diff(x, e) ==
  { f \in {"r", "cb", "v", "blk", "fin", "prc"} :
      ~ CASE f = "blk" -> x.blk = e.blk
          [] f = "r"   -> x.blk \/ e.blk \/ x.r = e.r
          [] f = "cb"  -> SameBag(SelectSeq(x.cb, LAMBDA z : z[1] \in DOMAIN d.L /\ (d.L[z[1]].ini \/ x.d.L[z[1]].ini)), ObsCb(e.cb))   \* only running processes are told
          [] f = "v"   -> x.blk \/ e.blk \/ (IF e.op = "drom_pids" THEN x.r = 0 => ToSet(x.v) = ToSet(e.l) /\ Len(x.v) = Len(e.l)
                                             ELSE IF e.op = "drom_preinit" THEN x.r = 0 => e.v = 1     \* the child is told in its environment
                                             ELSE IF e.op \in {"drom_ncpus", "poll", "drom_get"} THEN x.r >= 0 => x.v = Val(e) ELSE TRUE)
          [] f = "fin" -> FinSet(x.fin) = ObsFin(e)
          [] f = "prc" -> e.prcup => SlotSet(x.d.q) = SeenSet(e.prc) }
  \cup (LET f == CpuDiff(T, x.d.g.s, e.st)
             s == x.d.g.s
             none == {c \in Cpus(T) : s.own[c] = NOBODY /\ s.st[c] = "D" /\ s.gst[c] = NOBODY}     \* nobody can have it, listed or not
         IN IF "free" \in f /\ s.free \ none = ToSet(e.st.free) \ none THEN f \ {"free"} ELSE f)

(* the registry as the implementation shows it; processes stay in their slots *)
SeenReg(q, e) ==
  LET o == e.prc
      S == {o[k].pid : k \in 1..Len(o)}
      Of(pid) == o[CHOOSE k \in 1..Len(o) : o[k].pid = pid]
      kept == [k \in 1..T.n |-> IF q.sl[k].pid \in S THEN q.sl[k].pid ELSE 0]
      new == SetToSeq(S \ ToSet(kept))
      gaps == SelectSeq([k \in 1..T.n |-> k], LAMBDA k : kept[k] = 0)
      pid(k) == IF kept[k] # 0 THEN kept[k]
                ELSE LET j == SelectInSeq(gaps, LAMBDA y : y = k) IN IF j # 0 /\ j <= Len(new) THEN new[j] ELSE 0
      sl == [k \in 1..T.n |-> IF pid(k) = 0 THEN EmptySlot
                               ELSE [pid |-> pid(k), pre |-> IF kept[k] # 0 THEN q.sl[k].pre ELSE FALSE, dirty |-> Of(pid(k)).dirty = 1,
                                     cur |-> ToSet(Of(pid(k)).cur), fut |-> ToSet(Of(pid(k)).fut), stl |-> ToSet(Of(pid(k)).stl)]]
  IN [q EXCEPT !.sl = sl]
Observed(x, e) ==
  LET h == [x.d EXCEPT !.g.s = CpuSeen(T, @, e.st)] IN
  IF e.prcup /\ Len(e.prc) <= T.n THEN [h EXCEPT !.q = SeenReg(@, e)] ELSE h
SeenRes(x, e) ==
  [x EXCEPT !.r = e.r, !.cb = ObsCb(e.cb), !.blk = e.blk, !.v = Val(e), !.fin = [k \in 1..Len(e.fin) |-> <<e.fin[k].p, e.fin[k].r, ToSet(e.fin[k].m)>>]]

Init == /\ t \in 1..Len(Traces)
        /\ i = 0 /\ bad = 0
        /\ T = Topo(Traces[t].cfg)
        /\ d = D0(Topo(Traces[t].cfg), PIDS(t))
        /\ K = K0(PIDS(t))
Next == /\ bad < 2 /\ i < Len(Traces[t].steps)
        /\ LET e == Traces[t].steps[i+1]
               a == ArgsOf(e)
               x == DDo(T, d, e.p, e.op, a)
               f == IF e.ok THEN Diff(x, e) ELSE {"crash"}
               y == IF e.ok /\ f # {} THEN SeenRes(x, e) ELSE x
               h == IF e.ok /\ f # {} THEN Observed(x, e) ELSE x.d
               L == Told(T, d, K, h, e.p, e.op, a, y)
               v == DBroken(T, d, K, h, L, e.p, e.op, a, y)
           IN /\ d' = h /\ K' = L /\ i' = i + 1 /\ bad' = IF f \cup v = {} THEN bad ELSE bad + 1
              /\ (f \cup v # {}) => PrintT(<<"MISMATCH", Traces[t].id, i + 1, f \cup v, e.op,
                                             [r |-> x.r, cb |-> x.cb, v |-> x.v, blk |-> x.blk, fin |-> x.fin, q |-> x.d.q, s |-> x.d.g.s]>>)
        /\ UNCHANGED <<t, T>>
Spec == Init /\ [][Next]_vars
=============================================================================
