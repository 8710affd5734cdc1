----------------------------- MODULE TalpProps -----------------------------
(* What performance measurement guarantees, as predicates on a step          *)
(*   h --(p, t, op, a)--> g, with the answer x.                              *)
EXTENDS Talp

Tot(r) == r.u + r.m + r.lb + r.sc + r.se
Sum(P, F(_)) == FoldLeft(LAMBDA s, i : s + F(P.smp[i]), 0, [i \in DOMAIN P.smp |-> i])
(* time measured in the threads of the process and not yet added to its regions *)
Pend(h, p) == Sum(h.P[p], LAMBDA s : s.u + s.m + s.in + s.out + IF s.st = "off" THEN 0 ELSE h.now - s.last)
Active(h, p) == Cardinality({i \in DOMAIN h.P[p].smp : h.P[p].smp[i].st # "off"})
Same(h, g, q) == {k \in DOMAIN h.P[q].regs \cap DOMAIN g.P[q].regs : h.P[q].up /\ g.P[q].up}
NewThread(h, p, t, op) == op = "tb" /\ SIdx(h.P[p], t) = 0
(* the thread that initializes MPI in a region that was already started was useful since it was last seen *)
MainLast(h, p, t) == LET i == SIdx(h.P[p], t) IN IF i = 0 THEN h.P[p].regs[h.P[p].open[1]].st ELSE h.P[p].smp[i].last
NewMain(h, p, t, op) == /\ op = "mpi_init" /\ h.P[p].regs # << >> /\ h.P[p].regs[GLOBAL].on
                        /\ SIdx(h.P[p], t) # 0 => h.P[p].smp[SIdx(h.P[p], t)].st = "off"
Whole(op) == op \in {"collect", "fin", "omp_stop", "init", "omp_start"}   \* several changes of a region at once

(* ---- T01 regions *)
Alike(g, h) == [g EXCEPT !.P = [q \in DOMAIN @ |-> [@[q] EXCEPT !.known = {}]]] = [h EXCEPT !.P = [q \in DOMAIN @ |-> [@[q] EXCEPT !.known = {}]]]
Names(g) == \A q \in DOMAIN g.P : \A i, j \in DOMAIN g.P[q].regs : i # j => g.P[q].regs[i].nm # g.P[q].regs[j].nm
Handles(h, g, p, op, a, x) ==
  /\ op = "reg" => IF ~h.P[p].talp \/ Forbidden(a[1]) THEN x.v = 0 /\ Alike(g, h)
                   ELSE /\ x.v \in DOMAIN g.P[p].regs
                        /\ Anonymous(a[1]) => x.v \notin DOMAIN h.P[p].regs
                        /\ ~Anonymous(a[1]) => g.P[p].regs[x.v].nm = Canon(a[1])
                        /\ \A k \in DOMAIN h.P[p].regs : g.P[p].regs[k] = h.P[p].regs[k]
  /\ op = "glob" /\ h.P[p].talp => x.v # 0 /\ h.P[p].regs[x.v].nm = "Global"
Opened(h, g, q, k) == g.P[q].regs[k].on /\ ~h.P[q].regs[k].on
Closed(h, g, q, k) == h.P[q].regs[k].on /\ ~g.P[q].regs[k].on
Which(h, p, a) == IF a[1] = 0 THEN GLOBAL ELSE IF a[1] = -1 THEN IF h.P[p].open = << >> THEN 0 ELSE h.P[p].open[1] ELSE a[1]
Life(T, h, g, p, t, op, a, x) ==
  /\ op \in {"rstart", "rstop", "rreset"} /\ h.P[p].talp =>
       LET k == Which(h, p, a) IN
       IF k \notin DOMAIN h.P[p].regs THEN x.r < 0 /\ Alike(g, h)
       ELSE LET R == h.P[p].regs[k] IN
            CASE op = "rstart" -> x.r = (IF Observer(h, p, t) THEN PERM ELSE IF R.en /\ ~R.on THEN SUCCESS ELSE NOUPDT) /\ (x.r = SUCCESS => Opened(h, g, p, k))
              [] op = "rstop"  -> x.r = (IF Observer(h, p, t) THEN PERM ELSE IF R.on THEN SUCCESS ELSE NOUPDT) /\ (x.r = SUCCESS => Closed(h, g, p, k))
              [] op = "rreset" -> x.r = SUCCESS /\ ~g.P[p].regs[k].on /\ g.P[p].regs[k].res = R.res + 1 /\ Tot(g.P[p].regs[k]) = 0 /\ g.P[p].regs[k].el = 0
  \* what does not succeed changes nothing in any region
  /\ op \in {"rstart", "rstop"} /\ x.r # SUCCESS => g.P[p].regs = h.P[p].regs
  /\ ~Whole(op) => \A q \in DOMAIN g.P : \A k \in Same(h, g, q) :
       /\ Opened(h, g, q, k) => q = p /\ op \in {"rstart", "mpi_init"} /\ h.P[q].regs[k].en /\ (op = "mpi_init" => k = GLOBAL)
       /\ Closed(h, g, q, k) => q = p /\ op \in {"rstop", "rreset", "mpi_fin"}
       \* the last one to be started is the one closed by default
       /\ Closed(h, g, q, k) /\ op = "rstop" /\ a[1] = -1 => \A j \in DOMAIN h.P[q].regs : h.P[q].regs[j].on => h.P[q].regs[j].st <= h.P[q].regs[k].st
Elapsed(h, g, op) ==
  ~Whole(op) => \A q \in DOMAIN g.P : \A k \in Same(h, g, q) :
    LET R == h.P[q].regs[k]  Z == g.P[q].regs[k] IN
    IF Z.res # R.res THEN TRUE
    ELSE IF Closed(h, g, q, k) THEN Z.el = R.el + (g.now - R.st) /\ Z.meas = R.meas + 1 /\ Z.sp = g.now /\ Z.st = R.st
    ELSE Z.el = R.el /\ Z.meas = R.meas /\ (Opened(h, g, q, k) => Z.st = g.now /\ Z.sp = NODATE)

(* ---- T02 every moment of every measured thread, once, in every open region *)
Once(h, g, p, t, op, a) ==
  ~Whole(op) => \A q \in DOMAIN g.P : \A k \in Same(h, g, q) :
    LET R == h.P[q].regs[k]  Z == g.P[q].regs[k]
        add == IF op = "tick" THEN a[1] * Active(h, q) ELSE IF q = p /\ NewThread(h, p, t, op) THEN h.now - R.st
               ELSE IF q = p /\ NewMain(h, p, t, op) THEN h.now - MainLast(h, p, t) ELSE 0
    IN IF Z.res # R.res THEN TRUE
       ELSE IF R.on /\ Z.on THEN Tot(Z) + Pend(g, q) = Tot(R) + Pend(h, q) + add
       ELSE IF R.on THEN Tot(Z) = Tot(R) + Pend(h, q)
       ELSE IF Z.on THEN Tot(Z) = Tot(R) /\ Pend(g, q) = 0
       ELSE Tot(Z) = Tot(R)
Grow(h, g, op) == \A q \in DOMAIN g.P : \A k \in Same(h, g, q) :
    LET R == h.P[q].regs[k]  Z == g.P[q].regs[k] IN Z.res = R.res => Z.u >= R.u /\ Z.m >= R.m /\ Z.lb >= R.lb /\ Z.sc >= R.sc /\ Z.se >= R.se /\ Z.el >= R.el /\ Z.n >= R.n /\ Z.n <= Len(g.P[q].smp)
Calls(h, g, p, t, op) ==
  ~Whole(op) => \A q \in DOMAIN g.P : \A k \in Same(h, g, q) :
    LET R == h.P[q].regs[k]  Z == g.P[q].regs[k]
        obs == Observer(h, p, t)
        addm == IF q = p /\ ((op = "sout" /\ ~obs /\ t \in h.P[p].known) \/ op \in {"mpi_init", "mpi_fin"}) THEN 1 ELSE 0
        addp == IF q = p /\ op = "pb" THEN 1 ELSE 0  addt == IF q = p /\ op = "tc" THEN 1 ELSE 0
        cm(s) == s.cm  cp(s) == s.cp  ct(s) == s.ct
    IN Z.res = R.res /\ R.on => LET on == Z.on IN
         /\ Z.cm + (IF on THEN Sum(g.P[q], cm) ELSE 0) = R.cm + Sum(h.P[q], cm) + addm
         /\ Z.cp + (IF on THEN Sum(g.P[q], cp) ELSE 0) = R.cp + Sum(h.P[q], cp) + addp
         /\ Z.ct + (IF on THEN Sum(g.P[q], ct) ELSE 0) = R.ct + Sum(h.P[q], ct) + addt

(* ---- T03 parallel regions of OpenMP *)
Waited(h, p, t) == LET s == h.P[p].smp[SIdx(h.P[p], t)] IN s.in + IF s.st = "in" THEN h.now - s.last ELSE 0
Team(T, h, g, p, t, op, a) ==
  \A q \in DOMAIN g.P : \A k \in Same(h, g, q) :
    LET R == h.P[q].regs[k]  Z == g.P[q].regs[k] IN
    IF Z.res # R.res THEN TRUE
    ELSE IF q = p /\ op = "pe" /\ R.on THEN
      LET par == h.P[p].par[a[1]]
          ts == {par.team[i] : i \in (IF par.lvl = 1 THEN 0 ELSE 1)..(par.n - 1)}
          all == FoldSet(LAMBDA w, s : s + Waited(h, p, w), 0, ts)
          least == IF ts = {} THEN 0 ELSE Min({Waited(h, p, w) : w \in ts})
      IN /\ Z.sc - R.sc = least * Cardinality(ts)
         /\ Z.lb - R.lb = all - least * Cardinality(ts)
    ELSE Z.sc = R.sc /\ Z.lb = R.lb
Idle(g, p, t, op, a) ==
  \A q \in DOMAIN g.P : g.P[q].talp => \A i \in DOMAIN g.P[q].smp :
    LET s == g.P[q].smp[i] IN
    \* outside of every parallel region there is no wait inside one
    op = "pe" /\ q = p /\ g.P[p].par[a[1]].lvl = 1 /\ s.th \in {g.P[p].par[a[1]].team[j] : j \in 0..(g.P[p].par[a[1]].n - 1)} => s.in = 0 /\ s.st # "in"

(* ---- T04 what the others see *)
Collecting(h) == {p \in DOMAIN h.P : h.P[p].col.wait}
Slots(T, g) ==
  /\ \A i, j \in DOMAIN g.S.slots : i # j /\ g.S.slots[i].pid # 0 => g.S.slots[i].pid # g.S.slots[j].pid \/ g.S.slots[i].nm # g.S.slots[j].nm
  /\ \A i \in DOMAIN g.S.slots : g.S.slots[i].pid # 0 => g.P[g.S.slots[i].pid].shm # "no" \/ g.S.slots[i].pid \in Collecting(g)
  /\ Len(g.S.slots) <= g.S.max
(* with an external profiler, the times that are seen are those of the regions *)
Live(T, g) ==
  \A p \in DOMAIN g.P : g.P[p].talp /\ g.P[p].shm = "full" => \A k \in DOMAIN g.P[p].regs : LET R == g.P[p].regs[k] IN
     R.sid # 0 => LET s == g.S.slots[R.sid] IN s.pid = p /\ s.nm = R.nm /\ ((s.u = R.u /\ s.m = R.m) \/ (R.res > 0 /\ R.u = 0 /\ R.m = 0))
Fresh(T, h, g, p, op) == op = "mpi_fin" /\ h.P[p].talp /\ h.P[p].shm # "no" /\ g.P[p].regs[GLOBAL].sid # 0 =>
     LET R == g.P[p].regs[GLOBAL]  s == g.S.slots[R.sid] IN s.pid = p /\ s.u = R.u /\ s.m = R.m
SumOf(S, F(_)) == FoldSet(LAMBDA i, s : s + F(i), 0, S)
Totals(h, nm, x) ==
  LET I == {i \in DOMAIN h.S.slots : h.S.slots[i].pid # 0 /\ h.S.slots[i].nm = nm /\ (h.S.slots[i].u > 0 \/ h.S.slots[i].m > 0)} IN
  /\ x[1] = Cardinality(I) /\ x[2] = SumOf(I, LAMBDA i : h.S.slots[i].u) /\ x[3] = SumOf(I, LAMBDA i : h.S.slots[i].m)
  /\ x[4] = Max({0} \cup {h.S.slots[i].u : i \in I}) /\ x[5] = Max({0} \cup {h.S.slots[i].m : i \in I})
Seen(T, h, p, op, a, x) ==
  /\ op = "query" /\ x.r = SUCCESS => Totals(h, x.nm, x.x)
  /\ op = "ntimes" /\ x.r = SUCCESS => \A i, j \in DOMAIN x.x : i < j => x.x[i][1] < x.x[j][1]
(* what was stopped to be collected counts, in the same way for everybody *)
Stopped(T, h, p) == LET P == h.P[p]  C == P.col IN P.regs[C.h]
Collected(T, h, g, p, op, a, x) ==
  op = "collect" /\ ~x.blk /\ x.r = SUCCESS =>
    LET k == IF a[1] = 0 THEN GLOBAL ELSE a[1]
        nm == h.P[p].regs[k].nm
        Ans == {<<p, x.r, x.x, x.nm>>} \cup {f \in ToSet(x.fin) : TRUE}
        mine == Stop(T, h, p, 0, k).h.P[p].regs[k]
        others == {q \in Collecting(h) : h.P[q].regs[h.P[q].col.h].nm = nm}
        rest == {i \in DOMAIN h.S.slots : h.S.slots[i].nm = nm /\ h.S.slots[i].pid # 0 /\ h.S.slots[i].pid \notin others \cup {p}}
    IN /\ \A f, d \in Ans : f[4] = d[4] => f[2] = d[2] /\ f[3] = d[3]
       /\ \A q \in Partners(T, h) : q \in {f[1] : f \in Ans}
       /\ x.nm = nm
       /\ h.S.max # 0 /\ T.n >= Cardinality(DOMAIN h.P) /\ (\A q \in DOMAIN h.P : h.P[q].shm # "min" /\ ~T.o[q].ext) =>
            /\ x.x[2] = mine.u + SumOf(others, LAMBDA q : Stopped(T, h, q).u) + SumOf(rest, LAMBDA i : h.S.slots[i].u)
            /\ x.x[3] = mine.m + SumOf(others, LAMBDA q : Stopped(T, h, q).m) + SumOf(rest, LAMBDA i : h.S.slots[i].m)

TBroken(T, h, g, p, t, op, a, x) ==
  { z[1] : z \in { y \in {
     <<"T01.names",    Names(g)>>,
     <<"T01.handles",  Handles(h, g, p, op, a, x)>>,
     <<"T01.life",     Life(T, h, g, p, t, op, a, x)>>,
     <<"T01.elapsed",  Elapsed(h, g, op)>>,
     <<"T02.once",     Once(h, g, p, t, op, a)>>,
     <<"T02.grow",     Grow(h, g, op)>>,
     <<"T02.calls",    Calls(h, g, p, t, op)>>,
     <<"T03.team",     Team(T, h, g, p, t, op, a)>>,
     <<"T03.idle",     Idle(g, p, t, op, a)>>,
     <<"T04.slots",    Slots(T, g)>>,
     <<"T04.live",     Live(T, g)>>,
     <<"T04.final",    Fresh(T, h, g, p, op)>>,
     <<"T04.seen",     Seen(T, h, p, op, a, x)>>,
     <<"T04.collect",  Collected(T, h, g, p, op, a, x)>> } : ~y[2] } }
=============================================================================
