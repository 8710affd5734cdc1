-------------------------------- MODULE Drom --------------------------------
(* The registry of processes and masks of a node (DROM), on top of the CPU   *)
(* table of CpuInfo:  d = [ g |-> node of CpuInfo, q |-> registry,           *)
(*    L |-> [p |-> local state], w |-> pending synchronous calls ].          *)
(*                                                                           *)
(* T has, besides the fields of CpuInfo:  par [pid |-> parent pid or 0],     *)
(* drom (the processes respond to DROM), retst (a departing process returns  *)
(* what it stole).                                                           *)
EXTENDS CpuInfo

NOMEM == -14  TIMEOUT == -9  NOSHMEM == -5

EmptySlot == [pid |-> 0, pre |-> FALSE, dirty |-> FALSE, cur |-> {}, fut |-> {}, stl |-> {}]
EmptyReg(T) == [init |-> FALSE, free |-> {}, sl |-> [i \in 1..T.n |-> EmptySlot]]
(* ini: initialized, pre: pre-initialized itself, me: its slot, ap/ac: uses of the registry and of the table,   *)
(* dead: it crashed; the next process that opens a table finds what it left in it (gp, gc)     *)
Local0 == [ini |-> FALSE, pre |-> FALSE, me |-> 0, ap |-> 0, ac |-> 0, dead |-> FALSE, gp |-> FALSE, gc |-> FALSE]
D0(T, PIDS) == [g |-> Node0(T, PIDS), q |-> EmptyReg(T), L |-> [p \in PIDS |-> Local0], w |-> << >>]

Eff(s) == IF s.dirty THEN s.fut ELSE s.cur

(*--- attachments: a segment disappears with its last user if it is empty --*)
RegEmpty(T, q) == \A i \in 1..T.n : q.sl[i].pid = 0
TabEmpty(s)    == \A c \in DOMAIN s.own : s.own[c] = NOBODY
(* what crashed processes left *)
BuryP(T, d) ==
  LET X == {x \in DOMAIN d.L : d.L[x].dead /\ d.L[x].ap > 0}
      S == {i \in 1..T.n : d.q.sl[i].pid \in X}
      q == [d.q EXCEPT !.free = @ \cup UNION {Eff(d.q.sl[i]) : i \in S}, !.sl = [i \in 1..T.n |-> IF i \in S THEN EmptySlot ELSE @[i]]]
  IN IF X = {} THEN d ELSE [d EXCEPT !.q = IF RegEmpty(T, q) THEN EmptyReg(T) ELSE q, !.L = [x \in DOMAIN @ |-> IF x \in X THEN [@[x] EXCEPT !.ap = 0, !.gp = TRUE] ELSE @[x]]]
BuryC(T, d) ==
  LET X == {x \in DOMAIN d.L : d.L[x].dead /\ d.L[x].ac > 0}
  IN IF X = {} THEN d ELSE [d EXCEPT !.g.s = FoldLeft(LAMBDA s, x : CrashProc(T, s, x), @, Asc(X)), !.g.P = Up(@),
                                     !.L = [x \in DOMAIN @ |-> IF x \in X THEN [@[x] EXCEPT !.ac = 0, !.gc = TRUE] ELSE @[x]]]
OpenP(T, d0, p) ==
  LET d == IF d0.L[p].ap = 0 THEN BuryP(T, d0) ELSE d0
  IN [d EXCEPT !.L[p].ap = @ + 1, !.q = IF @.init THEN @ ELSE [@ EXCEPT !.init = TRUE, !.free = Cpus(T)]]
OpenC(T, d0, p) ==
  LET d == IF d0.L[p].ac = 0 THEN BuryC(T, d0) ELSE d0
  IN [d EXCEPT !.L[p].ac = @ + 1]
CloseP(T, d, p) ==
  LET e == [d EXCEPT !.L[p].ap = @ - 1]
  IN IF (\A x \in DOMAIN e.L : e.L[x].ap = 0) /\ RegEmpty(T, e.q) THEN [e EXCEPT !.q = EmptyReg(T)] ELSE e
CloseC(T, d, p) ==
  LET e == [d EXCEPT !.L[p].ac = @ - 1]
  IN IF (\A x \in DOMAIN e.L : e.L[x].ac = 0) /\ TabEmpty(e.g.s) THEN [e EXCEPT !.g.s = EmptyTable(T)] ELSE e
Attach(T, d, p) == OpenP(T, OpenC(T, d, p), p)
Detach(T, d, p) == LET e == IF d.L[p].ac > 0 THEN CloseC(T, d, p) ELSE d IN IF e.L[p].ap > 0 THEN CloseP(T, e, p) ELSE e

(*--- finding processes -----------------------------------------------------*)
SlotOf(T, q, pid) == LET S == {i \in 1..T.n : q.sl[i].pid = pid} IN IF S = {} THEN 0 ELSE Min(S)
RECURSIVE Lookup(_, _, _)
Lookup(T, q, pid) ==
  LET i == SlotOf(T, q, pid)
  IN IF i # 0 THEN i ELSE IF pid \in DOMAIN T.par /\ T.par[pid] > 0 THEN Lookup(T, q, T.par[pid]) ELSE 0
FirstEmpty(T, q) == SlotOf(T, q, 0)

(*--- moving CPUs -------------------------------------------------------------*)
(* take CPUs that nobody has *)
Register(q, i, mask) ==
  IF mask = {} THEN [q |-> q, r |-> SUCCESS]
  ELSE IF ~(mask \subseteq q.free) THEN [q |-> q, r |-> PERM]
  ELSE [q |-> [q EXCEPT !.free = @ \ mask, !.sl[i].fut = @ \cup mask, !.sl[i].stl = @ \ mask, !.sl[i].dirty = TRUE], r |-> SUCCESS]

(* leave CPUs: to whom they were stolen from, or to nobody *)
Unregister(T, q, i, mask, ret) ==
  IF mask = {} THEN q
  ELSE IF ~ret THEN [q EXCEPT !.free = @ \cup mask, !.sl[i].fut = @ \ mask, !.sl[i].dirty = TRUE]
  ELSE FoldLeft(LAMBDA x, c :
         LET S == {k \in 1..T.n : x.sl[k].pid # 0 /\ c \in x.sl[k].stl}
             y == IF S = {} THEN [x EXCEPT !.free = @ \cup {c}]
                  ELSE [x EXCEPT !.sl[Min(S)].fut = @ \cup {c}, !.sl[Min(S)].stl = @ \ {c}, !.sl[Min(S)].dirty = TRUE]
         IN [y EXCEPT !.sl[i].fut = @ \ {c}, !.sl[i].dirty = TRUE], q, Asc(mask))
Leave(T, q, i, ret) == [Unregister(T, q, i, Eff(q.sl[i]), ret) EXCEPT !.sl[i] = EmptySlot]

(* take CPUs from the processes that use them, only if all of them can be taken *)
Steal(T, q, i, mask) ==
  LET One(x, k) ==
        LET t == x.q.sl[k].cur \cap mask IN
        IF x.left = {} \/ x.bad \/ k = i \/ x.q.sl[k].pid = 0 \/ t = {} THEN x
        ELSE IF x.q.sl[k].dirty THEN [x EXCEPT !.bad = TRUE]
        ELSE [x EXCEPT !.left = @ \ t, !.took[k] = t,
                       !.q.sl[k] = [@ EXCEPT !.dirty = TRUE, !.fut = @ \ t, !.stl = @ \cup t]]
      z == FoldLeft(One, [q |-> q, left |-> mask, bad |-> FALSE, took |-> [k \in 1..T.n |-> {}]], [k \in 1..T.n |-> k])
  IN [ok |-> ~z.bad /\ z.left = {}, q |-> z.q, took |-> z.took]
(* (a victim is up to date, so that its future mask is its current one) *)

Give(q, i, mask) == IF mask = {} THEN q
                    ELSE [q EXCEPT !.sl[i].fut = @ \cup mask, !.sl[i].stl = @ \ mask, !.sl[i].dirty = TRUE]

(* what changing the mask of slot i means *)
Plan(T, q, i, mask) ==
  LET m == mask \cap Cpus(T) IN
  [acq |-> m \cap q.free, steal |-> (m \ q.free) \ q.sl[i].cur, fr |-> (q.sl[i].cur \ m)]
(* once the CPUs to steal have been taken *)
Complete(T, q, i, pl, ret) ==
  Unregister(T, Register(Give(q, i, pl.steal), i, pl.acq).q, i, pl.fr, ret)
SetMask(T, q, i, mask, ret) ==                      \* not synchronous
  LET pl == Plan(T, q, i, mask)
      st == Steal(T, q, i, pl.steal)
  IN IF pl.steal # {} /\ ~st.ok THEN [q |-> q, r |-> PERM]
     ELSE [q |-> Complete(T, IF pl.steal = {} THEN q ELSE st.q, i, pl, ret), r |-> SUCCESS]

(*--- the registration of a process -----------------------------------------*)
(* r < 0: nothing changes; otherwise mask is the one that the process gets *)
RegInit(T, q, p, mask, pre) ==
  LET e  == FirstEmpty(T, q)
      pi == IF pre = 0 THEN 0 ELSE SlotOf(T, q, pre)
      dup == \/ pi # 0 /\ ~q.sl[pi].pre
             \/ \E i \in 1..T.n : q.sl[i].pid = p /\ i # pi
      Bad(r) == [q |-> q, r |-> r, mask |-> {}, me |-> 0]
      Slot(m) == [EmptySlot EXCEPT !.pid = p, !.cur = m, !.fut = m]
      pm == IF pi = 0 THEN {} ELSE Eff(q.sl[pi])
      new == mask \ pm
  IN IF dup THEN Bad(INITED)
     ELSE IF pi = 0 THEN
        IF e = 0 THEN Bad(NOMEM)
        ELSE IF ~(mask \subseteq q.free) THEN Bad(PERM)
        ELSE [q |-> [q EXCEPT !.free = @ \ mask, !.sl[e] = Slot(mask)], r |-> SUCCESS, mask |-> mask, me |-> e]
     ELSE IF mask = {} \/ mask = pm THEN                                          \* inherits everything
        [q |-> [q EXCEPT !.sl[pi].pid = p, !.sl[pi].pre = FALSE], r |-> SUCCESS, mask |-> pm, me |-> pi]
     ELSE IF q.sl[pi].dirty THEN Bad(PDIRTY)
     ELSE IF pm \subseteq mask THEN                                               \* and more
        IF ~(new \subseteq q.free) THEN Bad(PERM)
        ELSE [q |-> [q EXCEPT !.free = @ \ new, !.sl[pi] = [@ EXCEPT !.pid = p, !.pre = FALSE, !.cur = mask, !.fut = mask]],
              r |-> SUCCESS, mask |-> mask, me |-> pi]
     ELSE IF e = 0 THEN Bad(NOMEM)
     ELSE IF ~(new \subseteq q.free) THEN Bad(PERM)
     ELSE [q |-> [q EXCEPT !.free = @ \ new, !.sl[pi].cur = @ \ mask, !.sl[pi].fut = @ \ mask, !.sl[e] = Slot(mask)],
           r |-> SUCCESS, mask |-> mask, me |-> e]

(*--- results ----------------------------------------------------------------*)
(* r result, cb callbacks, v value returned (masks), fin: calls of other     *)
(* processes that finish <<p, r, v>>, blk: the call does not return yet      *)
RES(d, r, cb, v) == [d |-> d, r |-> r, cb |-> cb, v |-> v, fin |-> << >>, blk |-> FALSE]
R0(d, r) == RES(d, r, << >>, {})
BLK(d, w) == [d |-> [d EXCEPT !.w = Append(@, w)], r |-> 0, cb |-> << >>, v |-> {}, fin |-> << >>, blk |-> TRUE]

(*--- synchronous calls: wait until the processes concerned have updated ---*)
StillUsed(T, q, i, mask) == \E k \in 1..T.n : k # i /\ q.sl[k].pid # 0 /\ q.sl[k].cur \cap mask # {}
Rollback(T, q, w) ==
  FoldLeft(LAMBDA x, k :
     IF w.took[k] = {} THEN x
     ELSE IF x.sl[k].pid = w.tookpid[k]
     THEN LET y == [x EXCEPT !.sl[k].fut = @ \cup w.took[k], !.sl[k].stl = @ \ w.took[k]]
          IN [y EXCEPT !.sl[k].dirty = y.sl[k].cur # y.sl[k].fut \/ y.sl[k].pre # w.tookpre[k]]   \* it may have started without them
     ELSE [x EXCEPT !.free = @ \cup w.took[k]],
     q, [k \in 1..T.n |-> k])
Wait0(p, k, i, pid, det) == [p |-> p, k |-> k, i |-> i, pid |-> pid, det |-> det, late |-> FALSE, pl |-> [acq |-> {}, steal |-> {}, fr |-> {}],
                             took |-> << >>, tookpid |-> << >>, tookpre |-> << >>, cur |-> {}, ret |-> FALSE, mask |-> {}, cst |-> FALSE]

(* a process that prepares the registration of another one *)
PreCpu(T, d, p, pid, mask, steal, ret, i) ==
  IF d.L[p].ac = 0 THEN [d |-> [d EXCEPT !.q = Leave(T, @, i, ret)], r |-> NOSHMEM]
  ELSE LET s1 == InitTable(T, d.g.s) IN
       IF ~steal /\ ~CanRegister(s1, pid, 0, mask) THEN [d |-> [d EXCEPT !.q = Leave(T, @, i, ret), !.g.s = s1], r |-> PERM]
       ELSE [d |-> [d EXCEPT !.g.s = RegisterMask(T, s1, pid, 0, mask)], r |-> SUCCESS]
PreSlot(q, i, pid, mask) == [q EXCEPT !.sl[i] = [EmptySlot EXCEPT !.pid = pid, !.pre = TRUE, !.cur = mask, !.fut = mask]]
PreFail(q, w) == IF q.sl[w.i].pid # w.pid THEN q
                 ELSE [q EXCEPT !.free = IF q.sl[w.i].dirty THEN @ \cup q.sl[w.i].fut ELSE @, !.sl[w.i] = EmptySlot]

Fini(T, d, w, r, v) == [d |-> IF w.det THEN Detach(T, d, w.p) ELSE d, fin |-> TRUE, r |-> r, v |-> v, w |-> w]
Wait(d, w) == [d |-> d, fin |-> FALSE, r |-> 0, v |-> {}, w |-> w]

(* the rest of a synchronous call once it gets over (or not) what it waits for *)
Resume(T, d, w) ==
  LET s == d.q.sl[w.i]
      used == StillUsed(T, d.q, w.i, w.pl.steal)
      err == IF s.pid # w.pid THEN NOPROC
             ELSE IF used /\ w.late THEN TIMEOUT
             ELSE IF s.dirty \/ s.cur # w.cur THEN PDIRTY
             ELSE IF ~(w.pl.acq \subseteq d.q.free) THEN PERM ELSE SUCCESS
  IN
  CASE w.k = "get" ->
         IF s.pid # w.pid THEN Fini(T, d, w, NOPROC, {})
         ELSE IF ~s.dirty THEN Fini(T, d, w, SUCCESS, s.cur)
         ELSE IF w.late THEN Fini(T, d, w, TIMEOUT, {}) ELSE Wait(d, w)
    [] w.k = "set" ->
         IF s.pid # w.pid THEN Fini(T, d, w, NOPROC, {})
         ELSE IF ~s.dirty THEN Fini(T, d, w, SUCCESS, {})
         ELSE IF w.late THEN Fini(T, d, w, TIMEOUT, {}) ELSE Wait(d, w)
    [] w.k \in {"steal", "psteal"} ->
         IF used /\ ~w.late THEN Wait(d, w)
         ELSE IF err # SUCCESS
         THEN LET q1 == Rollback(T, d.q, w)
              IN Fini(T, [d EXCEPT !.q = IF w.k = "psteal" THEN PreFail(q1, w) ELSE q1], w, err, {})
         ELSE LET q1 == Complete(T, d.q, w.i, w.pl, w.ret) IN
           IF w.k = "psteal"
           THEN LET x == PreCpu(T, [d EXCEPT !.q = PreSlot(q1, w.i, w.pid, w.mask)], w.p, w.pid, w.mask, w.cst, w.ret, w.i)
                IN Fini(T, x.d, w, x.r, {})
           ELSE Wait([d EXCEPT !.q = q1], [w EXCEPT !.k = "set", !.late = FALSE])

(* every pending call looks again, in order of arrival, until nothing changes *)
RECURSIVE RunWaits(_, _, _)
RunWaits(T, d, fin) ==
  LET One(x, w) == LET z == Resume(T, x.d, w) IN
        [d   |-> IF z.fin THEN z.d ELSE [z.d EXCEPT !.w = Append(@, z.w)],
         fin |-> IF z.fin THEN Append(x.fin, <<w.p, z.r, z.v>>) ELSE x.fin]
      y == FoldLeft(One, [d |-> [d EXCEPT !.w = << >>], fin |-> fin], d.w)
  IN IF y.d = d THEN [d |-> d, fin |-> fin] ELSE RunWaits(T, y.d, y.fin)

(*--- ownership ----------------------------------------------------------------*)
(* p has this mask from now on: the table and the process are told *)
NewMask(T, d, p, mask) ==
  LET a == UpdateOwnership(T, d.g.s, p, mask)
      g1 == [d.g EXCEPT !.P = [Up(@) EXCEPT ![p].mask = mask, ![p].prio = Priority(T, mask)]]
      x == Fin(T, g1, a, p, SUCCESS)
  IN IF ~T.lewi THEN [d |-> [d EXCEPT !.g = [g1 EXCEPT !.s = a.s]], cb |-> << >>]
     ELSE [d |-> [d EXCEPT !.g = [x.g EXCEPT !.P[p].pend = {}]], cb |-> x.cb \o PendCb(p, x.g.P[p].pend)]
PCb(p, mask) == <<<<p, "P", mask>>>>

(*--- operations ---------------------------------------------------------------*)
DInit(T, d0, p, mask, pre) ==
  IF d0.L[p].ini THEN R0(d0, INITED) ELSE
  LET d == OpenP(T, d0, p)
      x == RegInit(T, d.q, p, mask, pre)
      d1 == OpenC(T, [d EXCEPT !.q = x.q, !.L[p].me = x.me], p)
      s1 == InitTable(T, d1.g.s)
      s2 == RegisterMask(T, s1, p, pre, x.mask)
  IN IF x.r < 0 THEN R0(CloseP(T, d, p), x.r)
     ELSE IF ~CanRegister(s1, p, pre, x.mask)
     THEN LET e == CloseC(T, [d1 EXCEPT !.g.s = ForgetProc(T, s1, p), !.g.P = Up(@)], p)
          IN R0(CloseP(T, [e EXCEPT !.q = Leave(T, @, x.me, T.retst), !.L[p].me = 0], p), PERM)
     ELSE R0([d1 EXCEPT !.L[p].ini = TRUE,
                        !.g.s = IF T.async /\ T.lewi THEN [s2 EXCEPT !.qen = TRUE] ELSE s2,
                        !.g.P[p] = [NewProc EXCEPT !.ph = "init", !.en = TRUE, !.maxp = T.maxp, !.mask = x.mask,
                                                   !.prio = Priority(T, x.mask)]], SUCCESS)

LeaveReg(T, d, p) ==
  LET i == IF d.L[p].me # 0 /\ d.q.sl[d.L[p].me].pid = p THEN d.L[p].me ELSE Lookup(T, d.q, p)
  IN IF i = 0 THEN d ELSE CloseP(T, [d EXCEPT !.q = Leave(T, @, i, T.retst), !.L[p].me = 0], p)
DFin(T, d, p) ==
  IF d.L[p].ini THEN
    LET a  == IF T.lewi THEN Deregister(T, d.g.s, p) ELSE Acc(d.g.s)
        x  == Resolve(T, a.s, p, a.t)
        d1 == CloseC(T, [d EXCEPT !.g.s = ForgetProc(T, x.s, p), !.g.P = [Up(@) EXCEPT ![p] = [NewProc EXCEPT !.ph = "fin"]],
                                  !.L[p].ini = FALSE], p)
    IN RES(LeaveReg(T, d1, p), SUCCESS, SelectSeq(x.cb, LAMBDA t : t[1] # p), {})
  ELSE IF d.L[p].pre THEN        \* it was only pre-initialized: nothing is attached
    LET d1 == IF TabEmpty(d.g.s) /\ (\A y \in DOMAIN d.L : d.L[y].ac = 0) THEN d
              ELSE LET e == OpenC(T, d, p) IN CloseC(T, [e EXCEPT !.g.s = ForgetProc(T, @, p), !.g.P = Up(@)], p)
        d2 == IF RegEmpty(T, d1.q) /\ (\A y \in DOMAIN d1.L : d1.L[y].ap = 0) THEN d1
              ELSE LET e == OpenP(T, d1, p)
                       i == Lookup(T, e.q, p)
                   IN CloseP(T, IF i = 0 THEN e ELSE [e EXCEPT !.q = Leave(T, @, i, T.retst)], p)
    IN R0([d2 EXCEPT !.L[p].pre = FALSE], SUCCESS)
  ELSE R0(d, NOUPDT)

(* p prepares the registration of pid *)
DPre(T, d, p, pid, mask, steal, sync, ret) ==
  IF d.L[p].ap = 0 THEN R0(d, NOSHMEM)
  ELSE IF SlotOf(T, d.q, pid) # 0 THEN R0(d, INITED)
  ELSE LET i == FirstEmpty(T, d.q)
           q0 == [d.q EXCEPT !.sl[i] = [EmptySlot EXCEPT !.pid = pid, !.pre = TRUE]]
           pl == Plan(T, q0, i, mask)
           st == Steal(T, q0, i, pl.steal)
           Go(q1) == LET x == PreCpu(T, [d EXCEPT !.q = PreSlot(q1, i, pid, mask)], p, pid, mask, steal, ret, i) IN R0(x.d, x.r)
       IN IF i = 0 THEN R0(d, NOMEM)
          ELSE IF ~steal THEN IF ~(mask \subseteq d.q.free) THEN R0(d, PERM) ELSE Go(Register(q0, i, mask).q)
          ELSE IF pl.steal # {} /\ ~st.ok THEN R0(d, PERM)
          ELSE IF pl.steal # {} /\ sync
          THEN BLK([d EXCEPT !.q = st.q],
                   [Wait0(p, "psteal", i, pid, FALSE) EXCEPT !.pl = pl, !.took = st.took, !.tookpid = [k \in 1..T.n |-> q0.sl[k].pid], !.tookpre = [k \in 1..T.n |-> q0.sl[k].pre],
                                                             !.ret = ret, !.mask = mask, !.cst = TRUE])
          ELSE Go(Complete(T, IF pl.steal = {} THEN q0 ELSE st.q, i, pl, ret))
DPreSelf(T, d, p, mask) ==
  IF d.L[p].ini \/ d.L[p].pre THEN R0(d, INITED)
  ELSE LET x == DPre(T, Attach(T, d, p), p, p, mask, FALSE, FALSE, FALSE)
       IN R0(Detach(T, IF x.r < 0 THEN x.d ELSE [x.d EXCEPT !.L[p].pre = TRUE], p), x.r)

DPost(T, d, p, pid, ret) ==
  IF d.L[p].ap = 0 THEN R0(d, NOSHMEM) ELSE
  LET i == Lookup(T, d.q, pid)
      d1 == [d EXCEPT !.q = Leave(T, @, i, ret)]
  IN IF i = 0 THEN R0(d, NOPROC)
     ELSE IF d.L[p].ac = 0 THEN R0(d1, NOSHMEM)
     ELSE R0([d1 EXCEPT !.g.s = ForgetProc(T, @, pid), !.g.P = Up(@)], SUCCESS)

DRecover(T, d, p, pid) ==
  IF d.L[p].ap = 0 THEN R0(d, NOSHMEM) ELSE
  LET i == Lookup(T, d.q, pid) IN
  IF i = 0 THEN R0(d, NOPROC)
  ELSE IF d.q.sl[i].stl = {} THEN R0(d, NOUPDT)
  ELSE R0([d EXCEPT !.q = Register(@, i, d.q.sl[i].stl \cap @.free).q], SUCCESS)

Self(d, p, pid) == d.L[p].me # 0 /\ (pid = 0 \/ (pid = p /\ d.q.sl[d.L[p].me].pid = p))
DGet(T, d0, p, pid, sync) ==
  LET det == d0.L[p].ap = 0
      d == IF det THEN Attach(T, d0, p) ELSE d0
      End(x) == IF det THEN [x EXCEPT !.d = Detach(T, x.d, p)] ELSE x
      i == IF Self(d, p, pid) THEN d.L[p].me ELSE IF pid = 0 THEN 0 ELSE Lookup(T, d.q, pid)
      s == d.q.sl[i]
  IN IF i = 0 THEN End(R0(d, NOPROC))
     ELSE IF Self(d, p, pid) THEN
        IF ~s.dirty THEN End(RES(d, SUCCESS, << >>, s.cur))
        ELSE LET d1 == [d EXCEPT !.q.sl[i].cur = s.fut, !.q.sl[i].dirty = FALSE]
                 x  == NewMask(T, d1, p, s.fut)
             IN End(RES(x.d, NOTED, x.cb, s.fut))
     ELSE IF ~s.dirty THEN End(RES(d, SUCCESS, << >>, s.cur))
     ELSE IF ~sync THEN End(RES(d, SUCCESS, << >>, s.fut))
     ELSE BLK(d, Wait0(p, "get", i, s.pid, det))

DSet(T, d0, p, pid, mask, sync, ret, nosync) ==
  LET det == d0.L[p].ap = 0
      d == IF det THEN Attach(T, d0, p) ELSE d0
      End(x) == IF det THEN [x EXCEPT !.d = Detach(T, x.d, p)] ELSE x
      i == IF Self(d, p, pid) THEN d.L[p].me ELSE IF pid = 0 THEN 0 ELSE Lookup(T, d.q, pid)
      s == d.q.sl[i]
      x == SetMask(T, d.q, i, mask, ret)
      pl == Plan(T, d.q, i, mask)
      st == Steal(T, d.q, i, pl.steal)
      Own(q1) == IF nosync THEN R0([d EXCEPT !.q = q1], SUCCESS)
                 ELSE LET y == NewMask(T, [d EXCEPT !.q = [q1 EXCEPT !.sl[i].cur = q1.sl[i].fut, !.sl[i].dirty = FALSE]], p, mask)
                      IN RES(y.d, SUCCESS, y.cb \o PCb(p, mask), {})
  IN IF i = 0 THEN End(R0(d, NOPROC))
     ELSE IF Self(d, p, pid) THEN
        IF s.dirty /\ s.fut # mask THEN End(R0(d, PDIRTY))
        ELSE IF s.dirty THEN End(Own(d.q))
        ELSE IF x.r # SUCCESS THEN End(R0(d, x.r)) ELSE End(Own(x.q))
     ELSE IF s.dirty THEN End(R0(d, PDIRTY))
     ELSE IF ~sync THEN End(R0([d EXCEPT !.q = x.q], x.r))
     ELSE IF pl.steal # {} /\ ~st.ok THEN End(R0(d, PERM))
     ELSE IF pl.steal # {}
     THEN BLK([d EXCEPT !.q = st.q],
              [Wait0(p, "steal", i, s.pid, det) EXCEPT !.pl = pl, !.took = st.took, !.tookpid = [k \in 1..T.n |-> d.q.sl[k].pid], !.tookpre = [k \in 1..T.n |-> d.q.sl[k].pre],
                                                       !.cur = s.cur, !.ret = ret])
     ELSE BLK([d EXCEPT !.q = x.q], Wait0(p, "set", i, s.pid, det))

DPoll(T, d, p, upd) ==
  IF ~d.L[p].ini THEN R0(d, NOINIT)
  ELSE IF ~T.drom THEN R0(d, NOCOMP)
  ELSE LET i == IF Self(d, p, p) THEN d.L[p].me ELSE Lookup(T, d.q, p)
           s == d.q.sl[i]
       IN IF i = 0 THEN R0(d, NOPROC)
          ELSE IF ~s.dirty THEN R0(d, NOUPDT)
          ELSE LET x == NewMask(T, [d EXCEPT !.q.sl[i].cur = s.fut, !.q.sl[i].dirty = FALSE], p, s.fut)
               IN RES(x.d, SUCCESS, x.cb \o (IF upd THEN PCb(p, s.fut) ELSE << >>), s.fut)

DPids(T, d, p) == IF d.L[p].ap = 0 THEN R0(d, NOSHMEM)
                  ELSE RES(d, SUCCESS, << >>, SelectSeq([i \in 1..T.n |-> d.q.sl[i].pid], LAMBDA x : x # 0))

DDo1(T, d, p, op, a) ==
  CASE op = "init"        -> DInit(T, d, p, a[1], a[2])
    [] op = "fin"         -> DFin(T, d, p)
    [] op = "preinit"     -> DPreSelf(T, d, p, a[1])
    [] op = "drom_attach" -> R0(Attach(T, d, p), SUCCESS)
    [] op = "drom_detach" -> R0(Detach(T, d, p), IF d.L[p].ac = 0 \/ d.L[p].ap = 0 THEN NOSHMEM ELSE SUCCESS)
    [] op = "drom_preinit" -> DPre(T, d, p, a[1], a[2], "steal" \in a[3], "sync" \in a[3], "ret" \in a[3])
    [] op = "drom_post"   -> DPost(T, d, p, a[1], "ret" \in a[2])
    [] op = "drom_recover" -> DRecover(T, d, p, a[1])
    [] op = "drom_get"    -> DGet(T, d, p, a[1], "sync" \in a[2])
    [] op = "drom_set"    -> DSet(T, d, p, a[1], a[2], "sync" \in a[3], "ret" \in a[3], "nosync" \in a[3])
    [] op = "drom_pids"   -> DPids(T, d, p)
    [] op = "die"         -> R0([d EXCEPT !.L[p] = [Local0 EXCEPT !.dead = TRUE, !.ap = d.L[p].ap, !.ac = d.L[p].ac],
                                          !.g.P[p] = [NewProc EXCEPT !.ph = "fin"]], SUCCESS)
    [] op = "drom_ncpus"  -> RES(d, SUCCESS, << >>, {T.n})
    [] op = "poll"        -> DPoll(T, d, p, FALSE)
    [] op = "poll_upd"    -> DPoll(T, d, p, TRUE)
    [] op = "tick"        -> R0([d EXCEPT !.w = [k \in 1..Len(@) |-> [@[k] EXCEPT !.late = TRUE]]], SUCCESS)
    [] OTHER -> LET x == Do(T, d.g, p, op, a) IN RES([d EXCEPT !.g = x.g], x.r, x.cb, {})

Busy(d, p) == \E k \in 1..Len(d.w) : d.w[k].p = p
DDo(T, d, p, op, a) ==
  LET x == DDo1(T, d, p, op, a)
      y == RunWaits(T, x.d, << >>)
      k == SelectInSeq(y.fin, LAMBDA z : z[1] = p)
  IN IF x.blk /\ k # 0
     THEN [d |-> y.d, r |-> y.fin[k][2], cb |-> x.cb, v |-> y.fin[k][3], fin |-> DelAt(y.fin, k), blk |-> FALSE]
     ELSE [x EXCEPT !.d = y.d, !.fin = y.fin]
=============================================================================
