-------------------------------- MODULE Talp --------------------------------
(* Performance measurement (TALP): monitoring regions, the time of every     *)
(* thread, OpenMP accounting, and the times that the processes of the node   *)
(* publish.  Time is an integer; the clock only moves with "tick".           *)
(*                                                                           *)
(*   TDo(T, h, p, t, op, a) -> [h |-> new state, r, v (handle), x (values),  *)
(*                              blk, fin |-> calls of others that finish]    *)
(*                                                                           *)
(* T: n (CPUs), mult (size multiplier), lb (barriers are blocking calls),    *)
(*   cp[p] (CPUs of p), o[p]: options of p [talp, ext, node, bar, sel],      *)
(*   sel = [all, inc, names]                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
SUCCESS == 0  NOUPDT == 2  INIT == -3  NOSHMEM == -5  NOPROC == -6  PERM == -8  NOENT == -11  NOCOMP == -12  NOTALP == -16  NOINIT == -2
NODATE == -1
PERPROC == 100
GLOBAL == 1

(* ------------------------------------------------------------------ names *)
(* "-" stands for no name, "%e" for the empty one, "long:N:c" for a name of N characters that ends in c *)
Trunc(raw) == CASE raw = "long:126:a" -> "yyy..126..yya" [] raw = "long:127:a" -> "yyy..127..yya" [] raw = "long:127:b" -> "yyy..127..yyb"
                [] raw \in {"long:128:a", "long:128:b", "long:300:a"} -> "yyy..127..yyy" [] OTHER -> raw
Forbidden(raw) == raw \in {"all", "All", "ALL"}
Anonymous(raw) == raw \in {"-", "%e"}
GlobalNames == {"Global", "global", "GLOBAL"}
Canon(raw) == IF raw \in GlobalNames THEN "Global" ELSE Trunc(raw)
Selected(sel, nm) == LET in == sel.all \/ nm \in sel.names \/ (nm = "Global" /\ sel.names \cap GlobalNames # {}) IN IF sel.inc THEN in ELSE ~in

(* ------------------------------------------------------------------ state *)
Reg0(nm, avg, en, sid) == [nm |-> nm, n |-> 0, avg |-> avg, meas |-> 0, res |-> 0, cm |-> 0, cp |-> 0, ct |-> 0, st |-> NODATE, sp |-> NODATE,
                           el |-> 0, u |-> 0, m |-> 0, lb |-> 0, sc |-> 0, se |-> 0, on |-> FALSE, en |-> en, sid |-> sid]
Smp0(t, last) == [th |-> t, st |-> "off", last |-> last, u |-> 0, m |-> 0, in |-> 0, out |-> 0, cm |-> 0, cp |-> 0, ct |-> 0]
Par0 == [lvl |-> 0, n |-> 0, team |-> [i \in 0..7 |-> -1]]
KS == 0..5   \* identifiers of parallel regions
Proc0 == [up |-> FALSE, known |-> {0}, talp |-> FALSE, shm |-> "no", mpi |-> FALSE, obs |-> FALSE, regs |-> << >>, open |-> << >>, smp |-> << >>,
          anon |-> 0, refs |-> 0, par |-> [k \in KS |-> Par0], stk |-> [t \in 0..7 |-> << >>],
          col |-> [h |-> 0, again |-> FALSE, tmp |-> FALSE, wait |-> FALSE]]
Shm0 == [ini |-> FALSE, max |-> 0, slots |-> << >>]
H0(PIDS) == [now |-> 0, P |-> [p \in PIDS |-> Proc0], S |-> Shm0, q |-> << >>]
Free == [pid |-> 0, nm |-> "", m |-> 0, u |-> 0]

TR(h, r) == [h |-> h, r |-> r, v |-> 0, x |-> << >>, nm |-> "", blk |-> FALSE, fin |-> << >>]
TRX(h, r, x) == [TR(h, r) EXCEPT !.x = x]

(* ---------------------------------------------- times shared by processes *)
Users(h) == {p \in DOMAIN h.P : h.P[p].refs > 0}
ShInit(h, p, max) == IF h.S.ini /\ h.S.max # max THEN <<h, FALSE>>
                     ELSE <<[h EXCEPT !.P[p].refs = @ + 1, !.S.ini = TRUE, !.S.max = max], TRUE>>
(* for a while, whatever its capacity *)
ShJoin(T, h, p) == LET z == ShInit(h, p, T.n * T.mult) IN IF z[2] THEN z[1] ELSE [h EXCEPT !.P[p].refs = @ + 1]
ShClose(h, p) == LET g == [h EXCEPT !.P[p].refs = @ - 1] IN IF Users(g) = {} THEN [g EXCEPT !.S = Shm0] ELSE g
ShFin(h, p) == ShClose([h EXCEPT !.S.slots = [i \in DOMAIN @ |-> IF @[i].pid = p THEN Free ELSE @[i]]], p)
ShFind(h, p, nm) == LET S == {i \in DOMAIN h.S.slots : h.S.slots[i].pid = p /\ h.S.slots[i].nm = nm} IN IF S = {} THEN 0 ELSE Min(S)
ShReg(h, p, nm, old) ==     \* -> <<h, slot>>
  LET f == ShFind(h, p, nm)
      e == {i \in DOMAIN h.S.slots : h.S.slots[i].pid = 0}
      new == [Free EXCEPT !.pid = p, !.nm = nm]
  IN IF h.P[p].refs = 0 THEN <<h, old>>
     ELSE IF f # 0 THEN <<h, f>>
     ELSE IF e # {} THEN <<[h EXCEPT !.S.slots[Min(e)] = new], Min(e)>>
     ELSE IF Len(h.S.slots) < h.S.max THEN <<[h EXCEPT !.S.slots = Append(@, new)], Len(h.S.slots) + 1>>
     ELSE <<h, old>>
ShSet(h, p, k, m, u) == IF h.P[p].refs > 0 /\ k \in DOMAIN h.S.slots /\ h.S.slots[k].pid # 0 THEN [h EXCEPT !.S.slots[k].m = m, !.S.slots[k].u = u] ELSE h
PidLess(a, b) == a.pid < b.pid
ByName(h, nm) == SelectSeq(h.S.slots, LAMBDA s : s.pid # 0 /\ s.nm = nm)

(* ----------------------------------------------------------------- samples *)
SIdx(P, t) == LET S == {i \in DOMAIN P.smp : P.smp[i].th = t} IN IF S = {} THEN 0 ELSE Min(S)
(* the sample of thread t, a new one if needed *)
WithSample(h, p, t) ==
  LET P == h.P[p] IN
  IF SIdx(P, t) # 0 THEN h
  ELSE [h EXCEPT !.P[p].smp = Append(@, Smp0(t, IF P.open # << >> THEN P.regs[P.open[1]].st ELSE h.now))]
Upd(s, now) == LET d == now - s.last IN
  [CASE s.st = "use" -> [s EXCEPT !.u = @ + d] [] s.st = "mpi" -> [s EXCEPT !.m = @ + d] [] s.st = "in" -> [s EXCEPT !.in = @ + d]
     [] s.st = "out" -> [s EXCEPT !.out = @ + d] [] OTHER -> s EXCEPT !.last = now]
Flushed(s) == [s EXCEPT !.u = 0, !.m = 0, !.out = 0, !.cm = 0, !.cp = 0, !.ct = 0]
Mac0 == [u |-> 0, m |-> 0, lb |-> 0, sc |-> 0, se |-> 0, cm |-> 0, cp |-> 0, ct |-> 0]
MacAdd(M, s) == [M EXCEPT !.u = @ + s.u, !.m = @ + s.m, !.se = @ + s.out, !.cm = @ + s.cm, !.cp = @ + s.cp, !.ct = @ + s.ct]
(* every open region gets all the time that was measured *)
UpdateAll(T, h, p, M, n) ==
  LET P == h.P[p]  op == ToSet(P.open)
      regs == [k \in DOMAIN P.regs |-> LET r == P.regs[k] IN IF k \notin op THEN r
                ELSE [r EXCEPT !.n = IF @ < n THEN n ELSE @, !.u = @ + M.u, !.m = @ + M.m, !.lb = @ + M.lb, !.sc = @ + M.sc, !.se = @ + M.se,
                               !.cm = @ + M.cm, !.cp = @ + M.cp, !.ct = @ + M.ct]]
      g == [h EXCEPT !.P[p].regs = regs]
  IN IF T.o[p].ext THEN FoldLeft(LAMBDA x, k : ShSet(x, p, regs[k].sid, regs[k].m, regs[k].u), g, P.open) ELSE g
Aggregate(T, h, p) ==
  LET P == h.P[p]
      smp == [i \in DOMAIN P.smp |-> Upd(P.smp[i], h.now)]
      M == FoldLeft(MacAdd, Mac0, smp)
  IN UpdateAll(T, [h EXCEPT !.P[p].smp = [i \in DOMAIN smp |-> Flushed(smp[i])]], p, M, Len(smp))
(* end of a parallel region: the samples of the threads in ts *)
AggregateTeam(T, h, p, ts) ==
  LET P == h.P[p]
      ix == {SIdx(P, t) : t \in ts}
      smp == [i \in DOMAIN P.smp |-> IF i \in ix THEN Upd(P.smp[i], h.now) ELSE P.smp[i]]
      n == Cardinality(ix)
      mn == IF n = 0 THEN 0 ELSE Min({smp[i].in : i \in ix})
      M0 == FoldSet(LAMBDA i, M : MacAdd(M, smp[i]), Mac0, ix)
      M == [M0 EXCEPT !.sc = mn * n, !.lb = FoldSet(LAMBDA i, s : s + smp[i].in - mn, 0, ix)]
  IN UpdateAll(T, [h EXCEPT !.P[p].smp = [i \in DOMAIN smp |-> IF i \in ix THEN [Flushed(smp[i]) EXCEPT !.in = 0] ELSE smp[i]]], p, M, n)
SetState(h, p, t, s) == [h EXCEPT !.P[p].smp[SIdx(h.P[p], t)].st = s]
UpdOwn(h, p, t) == LET g == WithSample(h, p, t) IN [g EXCEPT !.P[p].smp[SIdx(g.P[p], t)] = Upd(@, h.now)]
Move(h, p, t, s) == SetState(UpdOwn(h, p, t), p, t, s)

(* ----------------------------------------------------------------- regions *)
Observer(h, p, t) == t = 0 /\ h.P[p].obs
Register(T, h, p, raw) ==   \* -> <<h, handle>>
  LET P == h.P[p]
      anon == Anonymous(raw)
      nm == IF anon THEN "Anonymous Region " \o ToString(P.anon + 1) ELSE Canon(raw)
      old == {k \in DOMAIN P.regs : P.regs[k].nm = nm}
      g == IF anon THEN [h EXCEPT !.P[p].anon = @ + 1] ELSE h
      sh == P.shm = "full" \/ (P.shm = "min" /\ nm = "Global")
      z == IF sh THEN ShReg(g, p, nm, 0) ELSE <<g, 0>>
  IN IF Forbidden(raw) \/ ~P.talp THEN <<h, 0>>
     ELSE IF ~anon /\ old # {} THEN <<h, Min(old)>>
     ELSE <<[z[1] EXCEPT !.P[p].regs = Append(@, Reg0(nm, T.cp[p], Selected(T.o[p].sel, nm), z[2]))], Len(P.regs) + 1>>

Start(T, h, p, t, k) ==
  LET R == h.P[p].regs[k]
      g == Aggregate(T, WithSample(h, p, t), p)
  IN IF Observer(h, p, t) THEN TR(h, PERM)
     ELSE IF R.on \/ ~R.en THEN TR(h, NOUPDT)
     ELSE TR(SetState([g EXCEPT !.P[p].regs[k].st = h.now, !.P[p].regs[k].sp = NODATE, !.P[p].regs[k].on = TRUE, !.P[p].open = <<k>> \o @], p, t, "use"), SUCCESS)
Stop(T, h, p, t, k0) ==
  LET P == h.P[p]
      k == IF k0 = -1 THEN (IF P.open = << >> THEN 0 ELSE P.open[1]) ELSE k0
      g == Aggregate(T, WithSample(h, p, t), p)
  IN IF Observer(h, p, t) THEN TR(h, PERM)
     ELSE IF k = 0 THEN TR(h, NOENT)
     ELSE IF ~P.regs[k].on THEN TR(h, NOUPDT)
     ELSE TR([g EXCEPT !.P[p].regs[k].sp = h.now, !.P[p].regs[k].el = @ + h.now - P.regs[k].st, !.P[p].regs[k].meas = @ + 1,
                       !.P[p].regs[k].on = FALSE, !.P[p].open = SelectSeq(@, LAMBDA j : j # k)], SUCCESS)
Reset(h, p, k) ==
  LET R == h.P[p].regs[k] IN
  TR([h EXCEPT !.P[p].regs[k] = [Reg0(R.nm, R.avg, R.en, R.sid) EXCEPT !.res = R.res + 1], !.P[p].open = SelectSeq(@, LAMBDA j : j # k)], SUCCESS)

(* ------------------------------------------------------------ life of TALP *)
TInit(T, h, p) ==
  LET o == T.o[p]
      h0 == [h EXCEPT !.P[p] = [Proc0 EXCEPT !.up = TRUE, !.talp = o.talp, !.anon = h.P[p].anon, !.refs = h.P[p].refs, !.known = h.P[p].known]]
      kind == IF o.ext THEN "full" ELSE IF o.node THEN "min" ELSE "no"
      z == IF kind = "no" THEN <<h0, FALSE>> ELSE ShInit(h0, p, T.n * T.mult * (IF kind = "full" THEN PERPROC ELSE 1))
      h1 == IF z[2] THEN [z[1] EXCEPT !.P[p].shm = kind] ELSE z[1]
  IN IF h.P[p].up THEN TR(h, INIT)
     ELSE IF ~o.talp THEN TR(h0, SUCCESS)
     ELSE TR(Register(T, h1, p, "Global")[1], SUCCESS)
TFin(T, h, p, t) ==
  LET P == h.P[p]
      \* regions that are still open are stopped
      g == IF P.talp /\ ~P.mpi THEN FoldLeft(LAMBDA x, k : Stop(T, x, p, t, k).h, h, P.open) ELSE h
      s == IF P.shm # "no" THEN ShFin(g, p) ELSE g
  IN IF ~P.up THEN TR(h, NOINIT)
     ELSE TR([s EXCEPT !.P[p] = [Proc0 EXCEPT !.anon = P.anon, !.refs = s.P[p].refs, !.obs = P.obs, !.known = P.known]], SUCCESS)

MpiInit(T, h, p, t) ==
  LET g == Start(T, [h EXCEPT !.P[p].mpi = TRUE], p, t, GLOBAL).h
      s == WithSample(g, p, t)
  IN IF ~h.P[p].talp THEN TR(h, 0) ELSE TR(SetState([s EXCEPT !.P[p].smp[SIdx(s.P[p], t)].cm = @ + 1], p, t, "use"), 0)
MpiFin(T, h, p, t) ==
  LET s == WithSample(h, p, t)
      g == Stop(T, [s EXCEPT !.P[p].smp[SIdx(s.P[p], t)].cm = @ + 1], p, t, GLOBAL).h
      R == g.P[p].regs[GLOBAL]
  IN IF ~h.P[p].talp THEN TR(h, 0) ELSE TR(IF h.P[p].shm # "no" THEN ShSet(g, p, R.sid, R.m, R.u) ELSE g, 0)
Sync(T, h, p, t, c, s) == IF T.o[p].ext /\ c # 0 THEN SetState(Aggregate(T, h, p), p, t, s) ELSE Move(h, p, t, s)
(* threads that never called the library are not measured *)
SyncIn(T, h, p, t, c) == IF ~h.P[p].talp \/ Observer(h, p, t) \/ t \notin h.P[p].known THEN h ELSE Sync(T, WithSample(h, p, t), p, t, c, "mpi")
SyncOut(T, h, p, t, c) == IF ~h.P[p].talp \/ Observer(h, p, t) \/ t \notin h.P[p].known THEN h
                          ELSE LET s == WithSample(h, p, t) IN Sync(T, [s EXCEPT !.P[p].smp[SIdx(s.P[p], t)].cm = @ + 1], p, t, c, "use")

(* ----------------------------------------------------------------- OpenMP *)
OmpStart(T, h, p) ==
  LET i == TInit(T, h, p)  g == i.h
      s == Start(T, [g EXCEPT !.P[p].regs[GLOBAL].avg = T.cp[p]], p, 0, GLOBAL).h
      w == WithSample(s, p, 0)
  IN IF ~g.P[p].talp THEN TR(g, 1) ELSE TR(SetState(w, p, 0, "use"), 1)
(* a thread starts in the middle of the regions that are open *)
ThreadBegin(T, h, p, t) ==
  LET g == WithSample(h, p, t)  P == g.P[p]  s == P.smp[SIdx(P, t)]
      outer == ToSet(Tail(P.open))
  IN IF s.st # "off" THEN g
     ELSE LET z == SetState(g, p, t, "out") IN
          IF P.open = << >> THEN z ELSE [z EXCEPT !.P[p].regs = [k \in DOMAIN @ |-> IF k \in outer THEN [@[k] EXCEPT !.se = @ + s.last - P.regs[k].st] ELSE @[k]]]
Count(h, p, t, f) == LET g == WithSample(h, p, t)  i == SIdx(g.P[p], t) IN
  IF f = "cp" THEN [g EXCEPT !.P[p].smp[i].cp = @ + 1] ELSE [g EXCEPT !.P[p].smp[i].ct = @ + 1]
ParBegin(T, h, p, t, k) == LET g == IF h.P[p].talp THEN Count(h, p, t, "cp") ELSE h IN
  [g EXCEPT !.P[p].par[k] = [Par0 EXCEPT !.lvl = Len(h.P[p].stk[t]) + 1]]
Implicit(T, h, p, t, k, i, n) ==
  LET g == IF h.P[p].talp THEN Move(h, p, t, "use") ELSE h IN
  [g EXCEPT !.P[p].par[k].team[i] = t, !.P[p].par[k].n = IF i = 0 THEN n ELSE @, !.P[p].stk[t] = Append(@, k)]
ParEnd(T, h, p, t, k) ==
  LET R == h.P[p].par[k]
      g == UpdOwn(h, p, t)
      all == {R.team[i] : i \in 0..(R.n - 1)}  ws == {R.team[i] : i \in 1..(R.n - 1)}
      s == SetState(AggregateTeam(T, g, p, IF R.lvl = 1 THEN all ELSE ws), p, t, "use")
      ix == {SIdx(s.P[p], w) : w \in ws}
  IN IF ~h.P[p].talp THEN h ELSE [s EXCEPT !.P[p].smp = [i \in DOMAIN @ |-> IF i \in ix /\ @[i].st = "in" THEN [@[i] EXCEPT !.st = "out"] ELSE @[i]]]
OmpEvent(T, h, p, t, op, a) ==
  CASE op = "tb"    -> IF h.P[p].talp THEN ThreadBegin(T, h, p, t) ELSE h
    [] op = "te"    -> IF h.P[p].talp THEN Move(h, p, t, "off") ELSE h
    [] op = "pb"    -> ParBegin(T, h, p, t, a[1])
    [] op = "imp"   -> Implicit(T, h, p, t, a[1], a[2], a[3])
    [] op = "ibar"  -> IF h.P[p].talp THEN Move(h, p, t, "in") ELSE h
    [] op = "iend"  -> [h EXCEPT !.P[p].stk[t] = Front(@)]
    [] op = "pe"    -> ParEnd(T, h, p, t, a[1])
    [] op = "si"    -> IF h.P[p].talp /\ a[1] \in KS THEN Move(h, p, t, "in") ELSE h    \* out of parallel regions there is nothing to wait for
    [] op = "so"    -> IF h.P[p].talp /\ a[1] \in KS THEN Move(h, p, t, "use") ELSE h
    [] op = "tdone" -> IF h.P[p].talp THEN Move(h, p, t, "in") ELSE h
    [] op = "tsw"   -> IF h.P[p].talp THEN Move(h, p, t, "use") ELSE h
    [] op = "tc"    -> IF h.P[p].talp THEN Count(h, p, t, "ct") ELSE h
OmpOps == {"tb", "te", "pb", "imp", "ibar", "iend", "pe", "si", "so", "tc", "tdone", "tsw"}

(* -------------------------------------------------- what others can obtain *)
Times(T, h, p, pid) ==
  IF pid = 0 \/ (pid = p /\ h.P[p].up) THEN IF h.P[p].talp THEN TRX(h, SUCCESS, <<h.P[p].regs[GLOBAL].m, h.P[p].regs[GLOBAL].u>>) ELSE TR(h, NOTALP)
  ELSE IF h.P[p].refs = 0 THEN TR(h, NOSHMEM)
  ELSE LET k == ShFind(h, pid, "Global") IN IF k = 0 THEN TR(h, NOPROC) ELSE TRX(h, SUCCESS, <<h.S.slots[k].m, h.S.slots[k].u>>)
NodeTimes(T, h, p, raw, max) ==
  LET l == ByName(h, IF raw = "-" THEN "Global" ELSE Trunc(raw))
      c == SortSeq(SubSeq(l, 1, IF Len(l) < max THEN Len(l) ELSE max), PidLess)
  IN IF h.P[p].refs = 0 \/ ~h.S.ini THEN TR(h, NOSHMEM) ELSE TRX(h, SUCCESS, [i \in DOMAIN c |-> <<c[i].pid, c[i].m, c[i].u>>])
Metrics(h, nm) ==
  LET l == SelectSeq(ByName(h, nm), LAMBDA s : s.m > 0 \/ s.u > 0)
      n == Len(l)
      tu == FoldLeft(LAMBDA a, s : a + s.u, 0, l)  tm == FoldLeft(LAMBDA a, s : a + s.m, 0, l)
      mu == FoldLeft(LAMBDA a, s : IF s.u > a THEN s.u ELSE a, 0, l)  mm == FoldLeft(LAMBDA a, s : IF s.m > a THEN s.m ELSE a, 0, l)
  IN <<n, tu, tm, mu, mm>>
Query(T, h, p, nm) == LET x == Metrics(h, nm) IN IF x[1] = 0 THEN TR(h, NOENT) ELSE [TRX(h, SUCCESS, x) EXCEPT !.nm = nm]
QueryOp(T, h, p, raw) == IF h.P[p].refs = 0 \/ ~h.S.ini THEN TR(h, NOSHMEM) ELSE Query(T, h, p, IF raw = "-" THEN "Global" ELSE Trunc(raw))

(* all the processes with barriers collect the metrics of a region: one waits for the others *)
Partners(T, h) == {p \in DOMAIN h.P : h.P[p].up /\ T.o[p].bar}
CollectIn(T, h, p, k) ==
  LET P == h.P[p]
      z == Stop(T, h, p, 0, k)
      tmp == IF P.shm = "no" THEN <<ShJoin(T, z.h, p), TRUE>> ELSE <<z.h, FALSE>>
      R == tmp[1].P[p].regs[k]
      reg == IF P.shm # "full" THEN ShReg(tmp[1], p, R.nm, R.sid) ELSE <<tmp[1], R.sid>>
      s == ShSet([reg[1] EXCEPT !.P[p].regs[k].sid = reg[2]], p, reg[2], R.m, R.u)
  IN [s EXCEPT !.P[p].col = [h |-> k, again |-> z.r = SUCCESS, tmp |-> tmp[2], wait |-> TRUE], !.q = Append(@, p)]
CollectOut(T, h, p) ==
  LET C == h.P[p].col
      s == IF C.tmp THEN ShFin(h, p) ELSE h
      g == IF C.again THEN Start(T, s, p, 0, C.h).h ELSE s
  IN [g EXCEPT !.P[p].col = Proc0.col]
CollectAnswer(T, h, p) ==
  LET nm == h.P[p].regs[h.P[p].col.h].nm IN IF h.P[p].refs = 0 THEN TR(h, NOSHMEM) ELSE Query(T, h, p, nm)
Collect(T, h, p, k) ==
  LET g == CollectIn(T, h, p, k)
      last == Partners(T, g) \subseteq ToSet(g.q)
      order == <<p>> \o Front(g.q)          \* the last one goes on first
      \* each one: out of the first barrier, its answer, into the second one
      One(acc, i) ==
        LET q == order[i]
            a == IF i > 1 /\ T.lb THEN SyncOut(T, acc.h, q, 0, 1) ELSE acc.h
            z == CollectAnswer(T, a, q)
            b == IF i < Len(order) /\ T.lb THEN SyncIn(T, a, q, 0, 1) ELSE a
        IN [h |-> b, ans |-> Append(acc.ans, <<q, z.r, z.x, z.nm>>)]
      f1 == FoldLeft(One, [h |-> g, ans |-> << >>], [i \in DOMAIN order |-> i])
      \* out of the second one (the last one to get there goes on first)
      Two(x, i) == LET q == order[i] IN CollectOut(T, IF i < Len(order) /\ T.lb THEN SyncOut(T, x, q, 0, 1) ELSE x, q)
      f2 == FoldLeft(Two, f1.h, <<Len(order)>> \o [i \in 1..(Len(order)-1) |-> i])
  IN IF ~h.P[p].talp THEN TR(h, NOTALP)
     ELSE IF ~T.o[p].bar THEN TR(h, NOCOMP)
     ELSE IF ~last THEN [TR(IF T.lb THEN SyncIn(T, g, p, 0, 1) ELSE g, 0) EXCEPT !.blk = TRUE]
     ELSE [TRX([f2 EXCEPT !.q = << >>], f1.ans[1][2], f1.ans[1][3]) EXCEPT !.nm = f1.ans[1][4], !.fin = Tail(f1.ans)]

(* --------------------------------------------------------------- operations *)
Busy(h, p) == h.P[p].col.wait
RegOp(T, h, p, t, op, k0) ==
  LET k == IF k0 = 0 THEN GLOBAL ELSE k0 IN
  IF ~h.P[p].talp THEN TR(h, NOTALP)
  ELSE IF k > Len(h.P[p].regs) THEN TR(h, -99)
  ELSE CASE op = "rstart" -> Start(T, h, p, t, k)
         [] op = "rstop"  -> Stop(T, h, p, t, k)
         [] op = "rreset" -> Reset(h, p, k)
         [] op = "rrep"   -> TR(h, SUCCESS)
Enters == {"rstart", "rstop", "rreset", "rrep", "reg", "glob", "rupd", "tb", "times", "collect"}
TDo(T, h0, p, t, op, a) ==
  LET none == op \in {"rstart", "rstop", "rreset", "rrep", "collect"} /\ h0.P[p].talp /\ a[1] > Len(h0.P[p].regs)   \* no such region: not a call
      h == IF op \in Enters /\ ~none THEN [h0 EXCEPT !.P[p].known = @ \cup {t}] ELSE h0 IN
  CASE op = "tick"   -> TR([h EXCEPT !.now = @ + a[1]], 0)
    [] op = "init"   -> TInit(T, h, p)
    [] op \in {"fin", "omp_stop"} -> [TFin(T, h, p, t) EXCEPT !.r = IF op = "fin" THEN @ ELSE 0]
    [] op = "omp_start" -> OmpStart(T, h, p)
    [] op = "observer" -> TR([h EXCEPT !.P[p].obs = a[1] # 0], SUCCESS)
    [] op = "reg"    -> LET z == Register(T, h, p, a[1]) IN [TR(z[1], 0) EXCEPT !.v = z[2]]
    [] op = "glob"   -> [TR(h, 0) EXCEPT !.v = IF h.P[p].talp THEN GLOBAL ELSE 0]
    [] op \in {"rstart", "rstop", "rreset", "rrep"} -> RegOp(T, h, p, t, op, a[1])
    [] op = "rupd"   -> IF ~h.P[p].talp THEN TR(h, NOTALP) ELSE IF Observer(h, p, t) THEN TR(h, PERM) ELSE TR(Aggregate(T, h, p), SUCCESS)
    [] op = "mpi_init" -> MpiInit(T, h, p, t)
    [] op = "mpi_fin"  -> MpiFin(T, h, p, t)
    [] op = "sin"    -> TR(SyncIn(T, h, p, t, a[1]), 0)
    [] op = "sout"   -> TR(SyncOut(T, h, p, t, a[1]), 0)
    [] op \in OmpOps -> TR(OmpEvent(T, h, p, t, op, a), 0)
    [] op = "times"  -> Times(T, h, p, a[1])
    [] op = "ntimes" -> NodeTimes(T, h, p, a[1], a[2])
    [] op = "query"  -> QueryOp(T, h, p, a[1])
    [] op = "collect" -> LET k == IF a[1] = 0 THEN GLOBAL ELSE a[1] IN IF h.P[p].talp /\ k > Len(h.P[p].regs) THEN TR(h, -99) ELSE Collect(T, h, p, k)
    [] op = "tatt"   -> TR([h EXCEPT !.P[p].refs = @ + 1, !.P[p].obs = @ \/ ~h.P[p].up], SUCCESS)
    [] op = "tdet"   -> IF h.P[p].refs = 0 THEN TR(h, NOSHMEM) ELSE TR(ShClose(h, p), SUCCESS)
    [] OTHER -> TR(h, 0)
=============================================================================
