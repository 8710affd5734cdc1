------------------------------- MODULE Amount -------------------------------
(* LeWI for processes that are not bound to CPUs: they exchange numbers of   *)
(* CPUs, not CPUs.  Two policies: polling (the classic one, T.async = FALSE, *)
(* the owner takes its CPUs at once even if nobody has left them, and the    *)
(* borrowers leave them when they next ask) and asynchronous (the others are *)
(* told by their helper thread at once).                                     *)
(*                                                                           *)
(*   AmDo(T, g, p, op, n) -> set of possible [g, r, cb]                      *)
(*                                                                           *)
(* T: n (CPUs of the node), async, keep, greedy                              *)
(* g: idle (CPUs lent that nobody uses; in polling mode negative if owners   *)
(*      took more than what was left), rq[p] requested CPUs (async),         *)
(*    P[p]: ph, en, def (own CPUs), cur (CPUs in use), maxp,                 *)
(*      back (what it had asked for before it lent its CPUs)                 *)
(* The order in which requests of the same amount are served is not defined. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

SUCCESS == 0  NOTED == 1  NOUPDT == 2  UNKNOWN == -1  NOINIT == -2  INITED == -3  DISBLD == -4  PERM == -8  NOPOL == -15
LOTS == 1000000

Proc0 == [ph |-> "none", en |-> FALSE, def |-> 0, cur |-> 0, maxp |-> 0, back |-> 0]
Am0(PIDS) == [idle |-> 0, rq |-> [p \in PIDS |-> 0], P |-> [p \in PIDS |-> Proc0]]
Procs(g) == {p \in DOMAIN g.P : g.P[p].ph = "init"}

Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
Clamp(T, n) == Mx(1, Mn(n, T.n))
Told(T, p, n) == <<<<p, "T", Clamp(T, n)>>>>
Out(g, r, cb) == {[g |-> g, r |-> r, cb |-> cb]}

(*--- asynchronous --------------------------------------------------------------*)
(* orders in which what the processes ask for (w) is attended: least first *)
Orders(w) == {o \in SetToAllKPermutations({p \in DOMAIN w : w[p] > 0}) :
                /\ Len(o) = Cardinality({p \in DOMAIN w : w[p] > 0})
                /\ \A i \in 1..(Len(o)-1) : w[o[i]] <= w[o[i+1]]}
(* deal n CPUs evenly, nobody more than it asks for: [who -> how many] *)
Deal(w, n, o) ==
  LET Step(x, i) == LET k == Mn(x.n \div (Len(o) - i + 1), w[o[i]])
                    IN [n |-> x.n - k, got |-> [x.got EXCEPT ![o[i]] = k]]
  IN FoldLeft(Step, [n |-> n, got |-> [p \in DOMAIN w |-> 0]], [i \in 1..Len(o) |-> i])

TellAll(T, g, S) == FlattenSeq([i \in 1..Cardinality(S) |-> Told(T, SetToSortSeq(S, <)[i], g.P[SetToSortSeq(S, <)[i]].cur)])

(* n CPUs are left: to those that asked for them, the rest is idle *)
Leave(g, n) ==
  { LET d == Deal(g.rq, n, o) IN
    [ g |-> [g EXCEPT !.idle = @ + d.n, !.rq = [p \in DOMAIN @ |-> @[p] - d.got[p]],
                      !.P = [p \in DOMAIN @ |-> [@[p] EXCEPT !.cur = @ + d.got[p]]]],
      who |-> {p \in DOMAIN g.rq : d.got[p] > 0} ] : o \in Orders(g.rq) }

(* p takes n of its own CPUs from those that use more than their own, that ask for them again *)
Take(g, p, n) ==
  LET w == [q \in DOMAIN g.P |-> IF q \in Procs(g) /\ q # p THEN Mx(0, g.P[q].cur - g.P[q].def) ELSE 0] IN
  { LET d == Deal(w, n, o) IN
    [ g |-> [g EXCEPT !.P = [q \in DOMAIN @ |-> [@[q] EXCEPT !.cur = IF q = p THEN @ + n ELSE @ - d.got[q]]],
                      !.rq = [q \in DOMAIN @ |-> @[q] + d.got[q]]],
      who |-> {q \in DOMAIN w : d.got[q] > 0} ] : o \in Orders(w) }
Same(g) == {[g |-> g, who |-> {}]}

Idle(g, p, n) == [g EXCEPT !.idle = @ - n, !.P[p].cur = @ + n]              \* p takes n of the idle CPUs

(* p stays with n of its CPUs *)
ALend(T, g, p, n, r) ==
  LET k == g.P[p].cur - n
      foreign == Mn(Mx(0, g.P[p].cur - g.P[p].def), k)
      again == foreign + g.rq[p]
      g1 == [g EXCEPT !.P[p].cur = n, !.rq[p] = 0, !.P[p].back = IF again > 0 THEN again ELSE @]
  IN { [g |-> x.g, r |-> r, cb |-> Told(T, p, n) \o TellAll(T, x.g, x.who)] : x \in Leave(g1, k) }

(* its own CPUs: idle ones first *)
Recover(g, p) ==
  LET need == g.P[p].def - g.P[p].cur
      k == Mn(g.idle, need)
      g1 == Idle(g, p, k)
  IN IF need > k THEN Take(g1, p, need - k) ELSE Same(g1)

AReclaim(T, g, p) ==
  IF g.P[p].cur >= g.P[p].def THEN Out(g, NOUPDT, << >>) ELSE
  { LET b == g.P[p].back
        k == Mn(x.g.idle, b)
        h == [Idle(x.g, p, k) EXCEPT !.rq[p] = @ + (b - k), !.P[p].back = 0]
    IN [g |-> h, r |-> SUCCESS, cb |-> Told(T, p, h.P[p].cur) \o TellAll(T, h, x.who)] : x \in Recover(g, p) }

AAcquire(T, g0, p, n0) ==
  LET n == n0 + g0.P[p].back
      g == [g0 EXCEPT !.P[p].back = 0]
      k == Mn(g.idle, n)
      g1 == Idle(g, p, k)
      own == Mn(n - k, Mx(0, g1.P[p].def - g1.P[p].cur))
      rest == n - k - own
  IN { LET h == [x.g EXCEPT !.rq[p] = @ + rest]
       IN [g |-> h, r |-> IF rest > 0 THEN NOTED ELSE SUCCESS, cb |-> Told(T, p, h.P[p].cur) \o TellAll(T, h, x.who)]
       : x \in IF own > 0 THEN Take(g1, p, own) ELSE Same(g1) }

ABorrow(T, g, p, n) ==
  LET k == Mn(g.idle, n) IN
  IF k = 0 THEN Out(g, NOUPDT, << >>) ELSE Out(Idle(g, p, k), SUCCESS, Told(T, p, g.P[p].cur + k))

(* back to its own CPUs; what it had asked for or used of others is remembered *)
AReset(g, p) ==
  LET g1 == [g EXCEPT !.rq[p] = 0]
      over == g.P[p].cur - g.P[p].def
      again == g.rq[p] + Mx(0, over)
      B(x) == [x EXCEPT !.g.P[p].back = IF again > 0 THEN again ELSE @]
  IN IF over > 0 THEN {B(x) : x \in Leave([g1 EXCEPT !.P[p].cur = g.P[p].def], over)}
     ELSE IF over < 0 THEN {B(x) : x \in Recover(g1, p)} ELSE {B(x) : x \in Same(g1)}

ADisable(T, g, p) ==
  { [g |-> [x.g EXCEPT !.P[p].en = FALSE], r |-> SUCCESS,
     cb |-> (IF g.P[p].cur # g.P[p].def THEN Told(T, p, x.g.P[p].cur) ELSE << >>) \o TellAll(T, x.g, x.who)] : x \in AReset(g, p) }
AFin(T, g, p) ==
  { [g |-> [x.g EXCEPT !.P[p] = [Proc0 EXCEPT !.ph = "fin"]], r |-> SUCCESS, cb |-> TellAll(T, x.g, x.who)] : x \in AReset(g, p) }
AEnable(T, g, p) ==
  LET h == [g EXCEPT !.P[p].en = TRUE] IN
  IF h.P[p].back = 0 THEN Out(h, SUCCESS, << >>)
  ELSE {[x EXCEPT !.r = SUCCESS] : x \in AAcquire(T, [h EXCEPT !.P[p].back = 0], p, h.P[p].back)}

ADo(T, g, p, op, n) ==
  CASE op = "lend" -> IF g.P[p].cur < 1 THEN Out(g, PERM, << >>) ELSE IF g.P[p].cur = 1 THEN Out(g, NOUPDT, << >>) ELSE ALend(T, g, p, 1, SUCCESS)
    [] op = "lend_cpus" -> IF n = 0 THEN Out(g, NOUPDT, << >>) ELSE IF n < 0 \/ n > g.P[p].cur THEN Out(g, PERM, << >>)
                           ELSE ALend(T, g, p, g.P[p].cur - n, SUCCESS)
    [] op = "into" -> LET k == IF T.keep THEN 1 ELSE 0 IN IF g.P[p].cur <= k THEN Out(g, 0, << >>) ELSE ALend(T, g, p, k, 0)
    [] op = "outof" -> {[x EXCEPT !.r = 0] : x \in AReclaim(T, g, p)}
    [] op = "reclaim" -> AReclaim(T, g, p)
    [] op = "acquire_cpus" -> IF n < 0 THEN Out(g, UNKNOWN, << >>)
                              ELSE IF n = 0 THEN Out([g EXCEPT !.rq[p] = 0, !.P[p].back = 0], SUCCESS, << >>) ELSE AAcquire(T, g, p, n)
    [] op = "borrow" -> ABorrow(T, g, p, LOTS)
    [] op = "borrow_cpus" -> ABorrow(T, g, p, n)
    [] OTHER -> Out(g, NOPOL, << >>)

(*--- polling -------------------------------------------------------------------*)
(* from now on p uses n CPUs (the number of threads is only set if it changes) *)
Set(T, g, p, n, r) == Out([g EXCEPT !.P[p].cur = n], r, IF n # g.P[p].cur THEN Told(T, p, n) ELSE << >>)
Left(g, p, n) == [g EXCEPT !.idle = @ + g.P[p].cur - n]                     \* p is going to use n
CKeep(T, g, p, n, r) == Set(T, Left(g, p, n), p, n, r)
(* its own ones at once; a greedy one then takes what is idle *)
Own1(g, p) == Left(g, p, g.P[p].def)
Own2(T, h, p, n, r) == Set(T, [h EXCEPT !.idle = @ - n], p, h.P[p].def + n, r)
COwn(T, g, p, r) == LET h == Own1(g, p) IN Own2(T, h, p, IF T.greedy THEN Mx(0, h.idle) ELSE 0, r)
CBorrow(T, g, p, n) ==
  LET pr == g.P[p]
      room == IF pr.maxp > 0 THEN Mn(n, pr.maxp - pr.cur) ELSE n
      k == Mn(g.idle, room)
      over == Mn(-g.idle, pr.cur - pr.def)
  IN IF g.idle < 0 /\ over > 0 THEN CKeep(T, g, p, pr.cur - over, SUCCESS)     \* an owner took them: leave them
     ELSE IF k > 0 THEN CKeep(T, g, p, pr.cur + k, SUCCESS)
     ELSE Out(g, NOUPDT, << >>)

CDo(T, g, p, op, n) ==
  CASE op = "lend" -> CKeep(T, g, p, 1, SUCCESS)
    [] op = "into" -> CKeep(T, g, p, IF T.keep THEN 1 ELSE 0, 0)
    [] op = "outof" -> COwn(T, g, p, 0)
    [] op = "reclaim" -> COwn(T, g, p, SUCCESS)
    [] op = "borrow" -> CBorrow(T, g, p, LOTS)
    [] op = "borrow_cpus" -> CBorrow(T, g, p, n)
    [] op = "maxpar" -> IF n <= 0 THEN Out(g, SUCCESS, << >>)
                        ELSE {[x EXCEPT !.g.P[p].maxp = n] : x \in IF g.P[p].cur > n THEN CKeep(T, g, p, n, SUCCESS) ELSE Out(g, SUCCESS, << >>)}
    [] op = "unsetmax" -> Out([g EXCEPT !.P[p].maxp = 0], SUCCESS, << >>)
    [] OTHER -> Out(g, NOPOL, << >>)

(*--- life ----------------------------------------------------------------------*)
AmDo(T, g, p, op, n) ==
  LET pr == g.P[p]  up == pr.ph = "init" IN
  CASE op = "init" -> IF up THEN Out(g, INITED, << >>)
                      ELSE Out([(IF Procs(g) = {} THEN [g EXCEPT !.idle = 0, !.rq = [q \in DOMAIN @ |-> 0]] ELSE g)
                                  EXCEPT !.P[p] = [Proc0 EXCEPT !.ph = "init", !.en = TRUE, !.def = n, !.cur = n]], SUCCESS, << >>)
    [] op = "fin" -> IF ~up THEN Out(g, NOUPDT, << >>)
                     ELSE IF T.async THEN AFin(T, g, p)
                     ELSE Out([Left(g, p, pr.def) EXCEPT !.P[p] = [Proc0 EXCEPT !.ph = "fin"]], SUCCESS, << >>)
    [] op \in {"into", "outof"} /\ (~up \/ ~pr.en) -> Out(g, 0, << >>)
    [] ~up -> Out(g, NOINIT, << >>)
    [] op = "enable"  -> IF pr.en THEN Out(g, NOUPDT, << >>) ELSE IF T.async THEN AEnable(T, g, p)
                         ELSE Out([g EXCEPT !.P[p].en = TRUE], SUCCESS, << >>)
    [] op = "disable" -> IF ~pr.en THEN Out(g, NOUPDT, << >>) ELSE IF T.async THEN ADisable(T, g, p)
                         ELSE {[x EXCEPT !.g.P[p].en = FALSE] : x \in CKeep(T, g, p, pr.def, SUCCESS)}
    [] ~pr.en -> Out(g, DISBLD, << >>)
    [] OTHER -> IF T.async THEN ADo(T, g, p, op, n) ELSE CDo(T, g, p, op, n)

(*--- two calls at the same time ------------------------------------------------*)
(* one after the other; only a greedy reclaim has two parts (nobody waits here,  *)
(* and what is idle may change between them)                                     *)
Greedy(T, g, a) == ~T.async /\ T.greedy /\ a.op \in {"reclaim", "outof"} /\ g.P[a.p].ph = "init" /\ g.P[a.p].en
More(f, h) == IF f THEN Mx(0, h.idle) ELSE 0
AmSeq(T, g, a, b) == UNION { { [g |-> y.g, r |-> x.r, r2 |-> y.r, cb |-> x.cb \o y.cb] : y \in AmDo(T, x.g, b.p, b.op, b.n) } : x \in AmDo(T, g, a.p, a.op, a.n) }
AmSplit(T, g, a, b) ==
  IF ~Greedy(T, g, a) THEN {} ELSE
  LET h1 == Own1(g, a.p)  f1 == h1.idle > 0 IN
  UNION { { [g |-> z.g, r |-> z.r, r2 |-> y.r, cb |-> y.cb \o z.cb] : z \in Own2(T, y.g, a.p, More(f1, y.g), 0) } : y \in AmDo(T, h1, b.p, b.op, b.n) }
  \cup (IF ~Greedy(T, g, b) THEN {} ELSE
    LET h2 == Own1(h1, b.p)  f2 == h2.idle > 0 IN
    UNION { { [g |-> z.g, r |-> y.r, r2 |-> z.r, cb |-> y.cb \o z.cb] : z \in Own2(T, y.g, b.p, More(f2, y.g), 0) } : y \in Own2(T, h2, a.p, More(f1, h2), 0) }
    \cup UNION { { [g |-> z.g, r |-> z.r, r2 |-> y.r, cb |-> y.cb \o z.cb] : z \in Own2(T, y.g, a.p, More(f1, y.g), 0) } : y \in Own2(T, h2, b.p, More(f2, h2), 0) })
AmPar(T, g, a, b) ==
  LET sw(x) == [x EXCEPT !.r = x.r2, !.r2 = x.r] IN
  AmSeq(T, g, a, b) \cup AmSplit(T, g, a, b) \cup {sw(x) : x \in AmSeq(T, g, b, a) \cup AmSplit(T, g, b, a)}
=============================================================================
