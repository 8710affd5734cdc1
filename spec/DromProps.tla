------------------------------ MODULE DromProps ------------------------------
(* The properties of DROM as predicates on one step                          *)
(*    d --(p performs op with arguments a)--> h    with results x, and on    *)
(* K, the mask that every initialized process has been told.                 *)
EXTENDS Drom

K0(PIDS) == [q \in PIDS |-> {}]
Slots(T, q) == {i \in 1..T.n : q.sl[i].pid # 0}
MySlot(T, h, p) == SlotOf(T, h.q, p)

(* what each process has been told *)
Told(T, d, K, h, p, op, a, x) ==
  LET i == MySlot(T, h, p) IN
  CASE op = "init" /\ x.r = SUCCESS -> [K EXCEPT ![p] = IF i = 0 THEN {} ELSE Eff(h.q.sl[i])]
    [] op \in {"poll", "poll_upd"} /\ x.r = SUCCESS -> [K EXCEPT ![p] = x.v]
    [] op = "drom_get" /\ ~x.blk /\ x.r = NOTED -> [K EXCEPT ![p] = x.v]
    [] op = "drom_set" /\ ~x.blk /\ x.r = SUCCESS /\ a[1] \in {0, p} /\ d.L[p].ini /\ ~("nosync" \in a[3]) -> [K EXCEPT ![p] = a[2]]
    [] OTHER -> K

InFlight(h) == UNION {h.w[k].pl.steal : k \in {j \in 1..Len(h.w) : h.w[j].k \in {"steal", "psteal"}}}

Disjoint(T, h) == \A i, j \in Slots(T, h.q) : i # j => Eff(h.q.sl[i]) \cap Eff(h.q.sl[j]) = {}
FreeIsFree(T, h) == \A i \in Slots(T, h.q) : Eff(h.q.sl[i]) \cap h.q.free = {}
AllThere(T, h) == h.q.init => h.q.free \cup InFlight(h) \cup UNION {Eff(h.q.sl[i]) : i \in Slots(T, h.q)} = Cpus(T)
StolenElse(T, h) == \A i \in Slots(T, h.q) : h.q.sl[i].stl \cap Eff(h.q.sl[i]) = {}
(* two processes have the same CPU only until the one that loses it updates *)
Overlap(T, h) == \A i, j \in Slots(T, h.q) : i # j => \A c \in h.q.sl[i].cur \cap h.q.sl[j].cur :
                    \/ h.q.sl[i].dirty /\ c \notin h.q.sl[i].fut
                    \/ h.q.sl[j].dirty /\ c \notin h.q.sl[j].fut

Pending(T, d, p) == LET i == MySlot(T, d, p) IN i # 0 /\ d.q.sl[i].dirty
Once(T, d, h, p, op, x) ==
  op \in {"poll", "poll_upd"} /\ d.L[p].ini /\ T.drom =>
    LET i == MySlot(T, d, p) IN
    IF i # 0 /\ d.q.sl[i].dirty
    THEN /\ x.r = SUCCESS /\ x.v = d.q.sl[i].fut /\ MySlot(T, h, p) = i
         /\ h.q.sl[i].cur = x.v /\ (x.fin = << >> => ~h.q.sl[i].dirty) /\ h.g.P[p].mask = x.v
         /\ (op = "poll_upd" => <<p, "P", x.v>> \in ToSet(x.cb))
    ELSE x.r # SUCCESS /\ (d.w = << >> => h.q.sl = d.q.sl)
(* a process that has nothing pending knows its mask *)
KnowsIt(T, h, K) == \A q \in DOMAIN K : h.L[q].ini => LET i == MySlot(T, h, q) IN (i # 0 /\ ~h.q.sl[i].dirty) => K[q] = h.q.sl[i].cur
(* nobody else's operation changes what a process uses until it is told *)
NotBehind(T, d, h, p) == \A i \in Slots(T, d.q) : LET s == d.q.sl[i] IN
    s.pid # p /\ h.q.sl[i].pid = s.pid /\ s.pid \in DOMAIN d.L /\ d.L[s.pid].ini => h.q.sl[i].cur = s.cur

DromOps == {"init", "preinit", "drom_preinit", "drom_set", "drom_get", "drom_post", "drom_recover", "poll", "poll_upd", "drom_pids", "drom_ncpus"}
(* (a process that cannot start because somebody has not released its CPUs yet loses its reservation, and gives what it took back as a process that leaves does) *)
Failed(T, d, h, p, op, a, x) ==
  ~(op = "init" /\ (a[2] # 0 \/ T.retst) /\ x.r = PERM) /\
  x.r < 0 /\ ~x.blk /\ op \in DromOps /\ d.w = h.w /\ ~(x.r = TIMEOUT /\ op = "drom_set") =>
      /\ h.q.sl = d.q.sl \/ h.q.sl = BuryP(T, d).q.sl
      /\ x.cb = << >>
      /\ (d.g.s.init /\ h.g.s.init => h.g.s.own = d.g.s.own \/ h.g.s.own = BuryC(T, d).g.s.own)
Undone(T, d, h, x) ==
  \A k \in 1..Len(d.w) : LET w == d.w[k] IN
    w.k \in {"steal", "psteal"} /\ (\E f \in ToSet(x.fin) : f[1] = w.p /\ f[2] < 0) =>
      \A i \in 1..T.n : w.took[i] # {} /\ h.q.sl[i].pid = w.tookpid[i] /\ h.q.sl[i].pid # 0 /\ d.q.sl[i].pid = w.tookpid[i]
          => w.took[i] \subseteq (Eff(h.q.sl[i]) \cup h.q.free) /\ w.took[i] \cap h.q.sl[i].stl = {}

(* what is taken from a process is remembered, and only taken on purpose *)
Taken(T, d, h, p, op, x) ==
  \A i \in Slots(T, d.q) : LET s == d.q.sl[i]  lost == Eff(s) \ Eff(h.q.sl[i]) IN
    h.q.sl[i].pid = s.pid /\ lost # {} =>
      \/ lost \subseteq h.q.sl[i].stl /\ op \in {"drom_set", "drom_preinit"}
      \/ op = "drom_set"
      \/ op = "init"                                     \* a child takes its part
      \/ x.fin # << >> \/ d.w # h.w
GivesBack(T, d, h, p, op, a, x) ==
  LET who == CASE op = "drom_post" /\ x.r = SUCCESS -> Lookup(T, d.q, a[1])
               [] op = "fin" /\ x.r = SUCCESS /\ d.L[p].ini -> MySlot(T, d, p)
               [] OTHER -> 0
      ret == IF op = "fin" THEN T.retst ELSE "ret" \in a[2]
  IN who # 0 /\ h.q.init =>
       /\ h.q.sl[who].pid = 0
       /\ \A c \in Eff(d.q.sl[who]) :
            LET S == {k \in Slots(T, d.q) \ {who} : c \in d.q.sl[k].stl} IN
            IF ret /\ S # {} THEN \E k \in S : c \in h.q.sl[k].fut /\ h.q.sl[k].dirty /\ c \notin h.q.sl[k].stl
            ELSE c \in h.q.free \/ x.fin # << >>
Recovers(T, d, h, p, op, a, x) ==
  op = "drom_recover" /\ x.r = SUCCESS =>
    LET i == Lookup(T, d.q, a[1]) IN
    /\ Eff(h.q.sl[i]) = Eff(d.q.sl[i]) \cup (d.q.sl[i].stl \cap d.q.free)
    /\ \A k \in Slots(T, d.q) \ {i} : h.q.sl[k] = d.q.sl[k]
Inherits(T, d, h, p, op, a, x) ==
  op = "init" /\ x.r = SUCCESS /\ x.fin = << >> /\ h.w = d.w =>           \* (a pending call may go on with what is left)
    LET i == MySlot(T, h, p)
        b == BuryP(T, d).q
        k == IF a[2] = 0 THEN 0 ELSE SlotOf(T, b, a[2])
        all == IF k = 0 THEN {} ELSE Eff(b.sl[k])
    IN /\ i # 0 /\ ~(k # 0 /\ ~b.sl[k].pre)
       /\ Eff(h.q.sl[i]) = IF k # 0 /\ a[1] = {} THEN all ELSE a[1]
       /\ Eff(h.q.sl[i]) \subseteq (b.free \cup all) \/ ~b.init
       /\ (k # 0 /\ i # k) => Eff(h.q.sl[k]) = all \ a[1]

Unique(T, h) == \A i, j \in Slots(T, h.q) : i # j => h.q.sl[i].pid # h.q.sl[j].pid
Registered(T, h) == \A q \in DOMAIN h.L : h.L[q].ini => Cardinality({i \in Slots(T, h.q) : h.q.sl[i].pid = q}) = 1
ListOk(T, d, op, x) == op = "drom_pids" /\ x.r = SUCCESS =>
     /\ ToSet(x.v) = {d.q.sl[i].pid : i \in Slots(T, d.q)} /\ Len(x.v) = Cardinality(ToSet(x.v))

(* once everybody is up to date both tables tell the same *)
Quiet(T, h) == h.w = << >> /\ \A i \in Slots(T, h.q) : ~h.q.sl[i].dirty
Agree(T, h) == Quiet(T, h) => \A q \in DOMAIN h.L : h.L[q].ini /\ MySlot(T, h, q) # 0 =>
     /\ {c \in Cpus(T) : h.g.s.own[c] = q} = h.q.sl[MySlot(T, h, q)].cur
     /\ h.g.P[q].mask = h.q.sl[MySlot(T, h, q)].cur
NoGhost(T, h) == Quiet(T, h) => \A c \in DOMAIN h.g.s.own : h.g.s.own[c] \in DOMAIN h.L /\ ~(h.L[h.g.s.own[c]].dead /\ h.L[h.g.s.own[c]].ac > 0)
             => h.g.s.own[c] \in {h.q.sl[i].pid : i \in Slots(T, h.q)}

(*--- crashes --------------------------------------------------------------*)
(* the next process that joins finds nothing that belongs to a crashed one *)
Gone(T, h, p) ==
    /\ \A i \in Slots(T, h.q) : ~(h.q.sl[i].pid \in DOMAIN h.L /\ h.L[h.q.sl[i].pid].gp)
  /\ LET X == {q \in DOMAIN h.L : h.L[q].gc} s == h.g.s IN
     /\ \A c \in Cpus(T) : s.own[c] \notin X /\ s.gst[c] \notin X /\ ToSet(s.rq[c]) \cap X = {}
     /\ \A k \in 1..Len(s.grq) : s.grq[k][1] \notin X
Joined(T, d, h, p) ==
  /\ d.L[p].ap = 0 /\ h.L[p].ap > 0 => \A q \in DOMAIN h.L : h.L[q].dead => h.L[q].ap = 0
  /\ d.L[p].ac = 0 /\ h.L[p].ac > 0 => \A q \in DOMAIN h.L : h.L[q].dead => h.L[q].ac = 0
(* what it had becomes available, nothing else changes hands *)
Inherited(T, d, h, p, op, a, x) ==
  LET b == BuryP(T, d)
      X == {i \in Slots(T, d.q) : d.L[p].ap = 0 /\ d.q.sl[i].pid \in {q \in DOMAIN d.L : d.L[q].dead /\ d.L[q].ap > 0}}
      who == {p} \cup (IF op \in {"drom_set", "drom_preinit"} THEN {a[1]} ELSE {})
  IN X # {} /\ h.L[p].ap > 0 /\ d.w = h.w =>
       /\ UNION {Eff(d.q.sl[i]) : i \in X} \subseteq h.q.free \cup UNION {Eff(h.q.sl[i]) : i \in {j \in Slots(T, h.q) : h.q.sl[j].pid \in who}}
       /\ \A i \in Slots(T, d.q) \ X : h.q.sl[i].pid = d.q.sl[i].pid => Eff(d.q.sl[i]) \subseteq Eff(h.q.sl[i]) \/ op \in {"init", "drom_set", "drom_preinit"}
(* a CPU that its owner wants goes back to it, or can be taken by somebody: none is lost *)
NoLimbo(T, h) == h.g.s.init => \A c \in Cpus(T) : LET s == h.g.s IN
   s.gst[c] = NOBODY => (s.st[c] = "B" => s.own[c] # NOBODY) /\ (s.st[c] # "D" => c \in s.free)   \* its owner takes it when it asks again
Crashed(T, d, h, p, op) == op = "die" => h.q = d.q /\ h.g.s = d.g.s

DBroken(T, d, K, h, L, p, op, a, x) ==
  { z[1] : z \in { y \in {
     <<"D01.disjoint",  Disjoint(T, h)>>,
     <<"D01.free",      FreeIsFree(T, h)>>,
     <<"D01.all",       AllThere(T, h)>>,
     <<"D01.stolen",    StolenElse(T, h)>>,
     <<"D01.overlap",   Overlap(T, h)>>,
     <<"D02.once",      Once(T, d, h, p, op, x)>>,
     <<"D02.told",      KnowsIt(T, h, L)>>,
     <<"D02.behind",    NotBehind(T, d, h, p)>>,
     <<"D03.failed",    Failed(T, d, h, p, op, a, x)>>,
     <<"D03.undone",    Undone(T, d, h, x)>>,
     <<"D04.taken",     Taken(T, d, h, p, op, x)>>,
     <<"D04.back",      GivesBack(T, d, h, p, op, a, x)>>,
     <<"D04.recover",   Recovers(T, d, h, p, op, a, x)>>,
     <<"D05.inherit",   Inherits(T, d, h, p, op, a, x)>>,
     <<"D05.unique",    Unique(T, h)>>,
     <<"D05.registered", Registered(T, h)>>,
     <<"D05.list",      ListOk(T, d, op, x)>>,
     <<"D07.gone",      Gone(T, h, p) /\ Joined(T, d, h, p)>>,
     <<"D07.inherited", Inherited(T, d, h, p, op, a, x)>>,
     <<"D07.limbo",     NoLimbo(T, h)>>,
     <<"D07.crash",     Crashed(T, d, h, p, op)>>,
     <<"D06.agree",     Agree(T, h)>>,
     <<"D06.noghost",   NoGhost(T, h)>> } : ~y[2] } }
=============================================================================
