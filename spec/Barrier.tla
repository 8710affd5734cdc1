------------------------------ MODULE Barrier ------------------------------
(* Barriers among the processes of a node (DLB_Barrier, named barriers) on   *)
(* top of the sharing of CPUs, which the processes that wait may lend.       *)
(*                                                                           *)
(*   BDo(T, b, p, op, a) -> [b |-> new state, r, cb, v (handle), blk,        *)
(*                           fin |-> calls of others that finish <<p, r>>]   *)
(*                                                                           *)
(* T of CpuInfo plus: slots, bar (set of processes that use barriers),       *)
(*   lb (default barrier lends), sel (names selected to lend), bid[p] (id)   *)
EXTENDS CpuInfo
NOMEM == -14

Free == [nm |-> "", lewi |-> FALSE, parts |-> 0, cnt |-> 0, nt |-> 0]
BProc == [ini |-> FALSE, def |-> 0, list |-> << >>]
Out == [k |-> "", h |-> 0, m |-> {}, lent |-> FALSE, got |-> {}]   \* got: CPUs that entering the barrier lent
B0(T, PIDS) == [ g |-> Node0(T, PIDS), sl |-> [i \in 1..T.slots |-> Free], P |-> [p \in PIDS |-> BProc],
                 w |-> [p \in PIDS |-> Out],      \* what a blocked call waits for: "bar" or "att"
                 q |-> << >> ]                    \* blocked processes in order of arrival

DefName(T, p) == IF T.bid[p] = 0 THEN "default" ELSE "default (id: " \o ToString(T.bid[p]) \o ")"
DefLewi(T) == IF T.sel = {} THEN T.lb ELSE "default" \in T.sel
(* flag: 0 never, 1 always, 2 as selected *)
NamedLewi(T, name, flag) == CASE flag = 1 -> TRUE [] flag = 0 -> FALSE [] OTHER -> name \in T.sel

Slot(T, b, name) == LET S == {i \in 1..T.slots : b.sl[i].parts > 0 /\ b.sl[i].nm = name} IN IF S = {} THEN 0 ELSE Min(S)
Spot(T, b) == LET S == {i \in 1..T.slots : b.sl[i].parts = 0} IN IF S = {} THEN 0 ELSE Min(S)
Waiting(b, k) == SelectSeq(b.q, LAMBDA x : b.w[x].k = "bar" /\ b.w[x].h = k)

(* -> <<b, slot>> *)
Join(T, b, name, lewi) ==
  LET k == Slot(T, b, name)  e == Spot(T, b) IN
  IF k # 0 THEN <<[b EXCEPT !.sl[k].parts = @ + 1], k>>
  ELSE IF e = 0 THEN <<b, 0>>
  ELSE <<[b EXCEPT !.sl[e] = [Free EXCEPT !.nm = name, !.lewi = lewi, !.parts = 1]], e>>
Leave1(b, k) == IF k = 0 \/ b.sl[k].parts = 0 THEN b
                ELSE [b EXCEPT !.sl[k] = IF @.parts = 1 THEN Free ELSE [@ EXCEPT !.parts = @ - 1]]

BR(b, r) == [b |-> b, r |-> r, cb |-> << >>, v |-> 0, blk |-> FALSE, fin |-> << >>]
BRC(b, r, cb) == [BR(b, r) EXCEPT !.cb = cb]

Cut(s, x) == SelectSeq(s, LAMBDA y : y # x)

(* everybody is in: the last one goes on first, then the others in order of arrival *)
Release(T, b, p, k) ==
  LET ws == Waiting(b, k)
      s0 == [b EXCEPT !.sl[k].nt = @ + 1, !.sl[k].cnt = 0]
      One(acc, x) == LET r == IF acc.b.w[x].lent THEN Do(T, acc.b.g, x, "outof", <<acc.b.w[x].m>>) ELSE [g |-> acc.b.g, cb |-> << >>]
                     IN [b |-> [acc.b EXCEPT !.g = r.g, !.w[x] = Out, !.q = Cut(@, x)], cb |-> acc.cb \o r.cb, fin |-> Append(acc.fin, <<x, SUCCESS>>)]
      s1 == FoldLeft(One, [b |-> s0, cb |-> << >>, fin |-> << >>], ws)
      \* the processes that wait to attach do it now
      as == SelectSeq(s1.b.q, LAMBDA x : s1.b.w[x].k = "att" /\ s1.b.w[x].h = k)
      Att(acc, x) == LET n == acc.b.sl[k].parts + 1 IN
                     [b |-> [acc.b EXCEPT !.sl[k].parts = n, !.P[x].list = Append(@, k), !.w[x] = Out, !.q = Cut(@, x)],
                      cb |-> acc.cb, fin |-> Append(acc.fin, <<x, n>>)]
      s2 == FoldLeft(Att, s1, as)
  IN s2

Enter(T, b, p, k, m) ==
  LET n == b.sl[k].cnt + 1
      s == [b EXCEPT !.sl[k].cnt = n]
  IN IF n >= b.sl[k].parts THEN LET z == Release(T, s, p, k) IN [BR(z.b, SUCCESS) EXCEPT !.cb = z.cb, !.fin = z.fin]
     ELSE LET r == IF b.sl[k].lewi THEN Do(T, b.g, p, "into", <<m>>) ELSE [g |-> b.g, cb |-> << >>]
          IN [BR([s EXCEPT !.g = r.g, !.w[p] = [Out EXCEPT !.k = "bar", !.h = k, !.m = m, !.lent = b.sl[k].lewi,
                          !.got = {c \in m \cap DOMAIN r.g.s.own : b.g.s.st[c] = "B" /\ b.g.s.gst[c] = p /\ r.g.s.gst[c] # p}], !.q = Append(@, p)], 0) EXCEPT !.cb = r.cb, !.blk = TRUE]

BBarrier(T, b, p, h, m) ==
  LET P == b.P[p]  k == IF h = 0 \/ h = P.def THEN P.def ELSE IF h \in ToSet(P.list) THEN h ELSE 0 IN
  IF ~P.ini \/ p \notin T.bar THEN BR(b, NOCOMP)
  ELSE IF k = 0 THEN BR(b, NOUPDT)
  ELSE Enter(T, b, p, k, m)

BAttach(T, b, p, h) ==
  LET P == b.P[p] IN
  IF ~P.ini \/ p \notin T.bar THEN BR(b, NOCOMP)
  ELSE IF h = 0 THEN
    IF P.def # 0 THEN BR(b, PERM)
    ELSE LET j == Join(T, b, DefName(T, p), DefLewi(T)) IN
         IF j[2] = 0 THEN BR(b, NOMEM) ELSE BR([j[1] EXCEPT !.P[p].def = j[2]], j[1].sl[j[2]].parts)
  ELSE IF h \in ToSet(P.list) \/ h = P.def THEN BR(b, PERM)
  ELSE IF Waiting(b, h) # << >> THEN [BR([b EXCEPT !.w[p] = [Out EXCEPT !.k = "att", !.h = h], !.q = Append(@, p)], 0) EXCEPT !.blk = TRUE]
  ELSE IF b.sl[h].parts = 0 THEN BR(b, PERM)
  ELSE BR([b EXCEPT !.sl[h].parts = @ + 1, !.P[p].list = Append(@, h)], b.sl[h].parts + 1)

BDetach(T, b, p, h) ==
  LET P == b.P[p] IN
  IF ~P.ini \/ p \notin T.bar THEN BR(b, NOCOMP)
  ELSE IF h = 0 \/ h = P.def THEN
    IF P.def = 0 THEN BR(b, PERM) ELSE BR([Leave1(b, P.def) EXCEPT !.P[p].def = 0], b.sl[P.def].parts - 1)
  ELSE IF h \notin ToSet(P.list) THEN BR(b, PERM)
  ELSE BR([Leave1(b, h) EXCEPT !.P[p].list = Cut(@, h)], b.sl[h].parts - 1)

BRegister(T, b, p, name, flag) ==
  LET P == b.P[p]  k == Slot(T, b, name) IN
  IF ~P.ini \/ p \notin T.bar \/ name = DefName(T, p) THEN BR(b, 0)
  ELSE IF k # 0 /\ k \in ToSet(P.list) THEN [BR(b, 0) EXCEPT !.v = k]
  ELSE LET j == Join(T, b, name, NamedLewi(T, name, flag)) IN
       IF j[2] = 0 THEN BR(b, 0) ELSE [BR([j[1] EXCEPT !.P[p].list = Append(@, j[2])], 0) EXCEPT !.v = j[2]]

BInit(T, b, p, mask) ==
  LET r == Do(T, b.g, p, "init", <<mask>>) IN
  IF b.P[p].ini THEN BRC([b EXCEPT !.g = r.g], r.r, r.cb)
  ELSE IF r.r < 0 THEN BRC([b EXCEPT !.g = r.g], r.r, r.cb)
  ELSE LET j == IF p \in T.bar THEN Join(T, b, DefName(T, p), DefLewi(T)) ELSE <<b, 0>> IN
       BRC([j[1] EXCEPT !.g = r.g, !.P[p] = [BProc EXCEPT !.ini = TRUE, !.def = j[2]]], r.r, r.cb)
BFin(T, b, p) ==
  LET r == Do(T, b.g, p, "fin", <<0>>)
      ks == <<b.P[p].def>> \o b.P[p].list
      s == FoldLeft(LAMBDA x, k : Leave1(x, k), b, ks)
  IN BRC([s EXCEPT !.g = r.g, !.P[p] = BProc], r.r, r.cb)

BBusy(b, p) == b.w[p].k # ""
BDo(T, b, p, op, a) ==
  CASE op = "init"     -> BInit(T, b, p, a[1])
    [] op = "fin"      -> IF b.P[p].ini THEN BFin(T, b, p) ELSE LET r == Do(T, b.g, p, "fin", <<0>>) IN BRC([b EXCEPT !.g = r.g], r.r, r.cb)
    [] op = "bar"      -> BBarrier(T, b, p, a[1], a[2])
    [] op = "bar_att"  -> BAttach(T, b, p, a[1])
    [] op = "bar_det"  -> BDetach(T, b, p, a[1])
    [] op = "bar_reg"  -> BRegister(T, b, p, a[1], a[2])
    [] OTHER -> LET r == Do(T, b.g, p, op, a) IN BRC([b EXCEPT !.g = r.g], r.r, r.cb)
=============================================================================
