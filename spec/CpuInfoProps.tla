---------------------------- MODULE CpuInfoProps ----------------------------
(* The properties of the CPU sharing subsystem, as predicates on one step    *)
(*     g --(p performs op with arguments a)--> h   result r, callbacks cb    *)
(* and on V, the CPUs that every process believes it may use (what it was    *)
(* told by results and callbacks).  Broken is the set of the clauses that a  *)
(* step breaks; the part of the name before the dot is the property.         *)
EXTENDS CpuInfo

V0(PIDS) == [q \in PIDS |-> {}]

IsBlk(g, T, p) == g.P[p].ph = "init" /\ T.lewi /\ g.P[p].en
CbSet(cb, q, x) == {cb[i][3] : i \in {j \in 1..Len(cb) : cb[j][1] = q /\ cb[j][2] = x}}

(* what each process knows after the step *)
ViewStep(T, g, V, h, p, op, a, r, cb) ==
  LET V1 == [q \in DOMAIN V |-> (V[q] \cup CbSet(cb, q, "E")) \ CbSet(cb, q, "D")]
      gaveUp == CASE r # SUCCESS -> {}
                  [] op = "lend"      -> Cpus(T)
                  [] op = "lend_cpu"  -> {a[1]}
                  [] op = "lend_mask" -> a[1]
                  [] op = "into" /\ IsBlk(g, T, p) -> BlockingMask(T, a[1])
                  [] OTHER -> {}
      back == IF op = "outof" /\ IsBlk(g, T, p)
              THEN {c \in BlockingMask(T, a[1]) : \/ h.s.gst[c] = p
                                                  \/ h.s.own[c] = p /\ h.s.st[c] = "B"}
              ELSE IF op = "check" /\ r = SUCCESS THEN {a[1]} ELSE {}
  IN CASE op = "init" /\ r = SUCCESS -> [V1 EXCEPT ![p] = a[1]]
       [] op = "fin"  /\ r = SUCCESS -> [V1 EXCEPT ![p] = {}]
       [] OTHER -> [V1 EXCEPT ![p] = ((V[p] \ gaveUp) \cup back \cup CbSet(cb, p, "E")) \ CbSet(cb, p, "D")]

Ups(h)      == {q \in DOMAIN h.P : h.P[q].ph = "init"}
NewGuest(g, h, c) == h.s.gst[c] # NOBODY /\ h.s.gst[c] # g.s.gst[c]
Gst(s, q)   == {c \in DOMAIN s.gst : s.gst[c] = q}
Owned(s, q) == {c \in DOMAIN s.own : s.own[c] = q}

(*--- states ---------------------------------------------------------------*)
(* a CPU is used by its guest and, at most, also by the owner that has       *)
(* reclaimed it from that guest                                              *)
Exclusive(T, h, V) ==
  \A c \in Cpus(T), q \in DOMAIN V : c \in V[q] =>
     h.s.gst[c] = q \/ (h.s.own[c] = q /\ h.s.st[c] = "B")
(* the guest of a CPU knows that it can use it *)
NotLost(T, h, V) == \A c \in Cpus(T) : h.s.gst[c] \in Ups(h) => c \in V[h.s.gst[c]]
OwnedAlive(T, h) == \A c \in Cpus(T) : /\ h.s.own[c] \in Ups(h) \cup {NOBODY}
                                       /\ h.s.gst[c] \in Ups(h) \cup {NOBODY}
FreeSet(T, h)    == {c \in Cpus(T) : h.s.gst[c] = NOBODY /\ h.s.st[c] = "L"} \subseteq h.s.free
OccSet(T, h)     == {c \in Cpus(T) : h.s.own[c] # NOBODY /\ h.s.gst[c] \notin {NOBODY, h.s.own[c]}} \subseteq h.s.occ

(*--- steps ----------------------------------------------------------------*)
(* a process starts using a CPU that is not its own only if it is lent       *)
OnlyLent(T, g, h) == \A c \in Cpus(T) : NewGuest(g, h, c) =>
                        h.s.own[c] = h.s.gst[c] \/ h.s.st[c] = "L"
(* it was not being used by a third process that did not give it up *)
NotStolen(T, g, h, p, cb) == \A c \in Cpus(T) :
    LET old == g.s.gst[c] IN
    NewGuest(g, h, c) /\ old # NOBODY =>
       old = p \/ (c \in CbSet(cb, old, "D") /\ h.s.own[c] = h.s.gst[c])
         \/ (c \in CbSet(cb, old, "D") /\ T.async)
(* only the owner changes whether its CPU is lent or reclaimed *)
OwnerDecides(T, g, h, p, op) == \A c \in Cpus(T) :
    g.s.st[c] # h.s.st[c] => g.s.own[c] = p \/ h.s.own[c] = p \/ ~g.s.init \/ ~h.s.init

Runs(T, g, p, op, r) == g.P[p].ph = "init" /\ T.lewi /\ (g.P[p].en \/ op = "enable") /\ r >= 0

(* who looks for CPUs gets one if there is any that it could use *)
Looks(T, op, a) ==
  CASE op \in {"borrow", "acquire_mask", "borrow_mask"} -> [m |-> IF op = "borrow" THEN Cpus(T) ELSE a[1], n |-> T.n]
    [] op \in {"borrow_cpus", "acquire_cpus"} -> [m |-> Cpus(T), n |-> a[1]]
    [] op \in {"borrow_in", "acquire_in"}     -> [m |-> a[2], n |-> IF a[1] > 0 THEN a[1] ELSE T.n]
    [] op = "borrow_cpu" -> [m |-> {a[1]}, n |-> 1]
    [] OTHER -> [m |-> {}, n |-> 0]
Available(T, g, h, p, op, a, r) ==
  LET w == Looks(T, op, a)  pr == g.P[p] IN
  Runs(T, g, p, op, r) /\ w.n > 0 /\ (op = "borrow_cpu" \/ pr.maxp = 0 \/ pr.maxp > Cardinality(Gst(g.s, p))) =>
    \A c \in w.m \cap Cpus(T) :
      /\ (op = "borrow_cpu" \/ \E i \in 1..Len(pr.prio) : pr.prio[i] = c)
      /\ g.s.st[c] = "L" /\ g.s.gst[c] = NOBODY /\ CoreEligible(T, g.s, p, c)
      => r = SUCCESS \/ (r = NOTED /\ op \in {"acquire_cpus", "acquire_mask", "acquire_in"})

(* the CPUs that the owner asks back *)
Asked(T, g, p, op, a) ==
  CASE op = "reclaim"      -> Owned(g.s, p) \cap g.P[p].mask
    [] op = "reclaim_cpu"  -> {a[1]} \cap Owned(g.s, p)
    [] op = "reclaim_mask" -> a[1] \cap Owned(g.s, p)
    [] op = "acquire_cpu"  -> {a[1]} \cap Owned(g.s, p)
    [] op = "disable"      -> Owned(g.s, p)
    [] op = "outof"        -> BlockingMask(T, a[1]) \cap Owned(g.s, p)
    [] OTHER -> {}
Recovered(T, g, h, p, op, a, r, cb) ==
  Runs(T, g, p, op, r) =>
  \A c \in Asked(T, g, p, op, a) :
     /\ h.s.gst[c] = p \/ (h.s.st[c] = "B" /\ ~T.async /\ g.s.gst[c] \notin {p, NOBODY})
     /\ h.s.gst[c] # p => h.s.st[c] = "B" /\ h.s.gst[c] = g.s.gst[c]
     /\ op \in {"reclaim", "reclaim_cpu", "reclaim_mask", "acquire_cpu", "disable"} /\ g.s.gst[c] # p
           => c \in CbSet(cb, p, "E")
     /\ T.async /\ g.s.gst[c] \notin {p, NOBODY} => c \in CbSet(cb, g.s.gst[c], "D")
(* CPUs that p gives back *)
GivenBack(T, g, p, op, a) ==
  CASE op = "return"      -> Cpus(T)
    [] op = "return_cpu"  -> {a[1]} \cap Cpus(T)
    [] op = "return_mask" -> a[1] \cap Cpus(T)
    [] op = "lend"        -> Cpus(T)
    [] op = "lend_cpu"    -> {a[1]} \cap Cpus(T)
    [] op = "lend_mask"   -> a[1] \cap Cpus(T)
    [] op = "disable"     -> Cpus(T)
    [] OTHER -> {}
Returned(T, g, h, p, op, a, r) ==
  Runs(T, g, p, op, r) =>
  \A c \in GivenBack(T, g, p, op, a) :
     g.s.st[c] = "B" /\ g.s.gst[c] = p /\ g.s.own[c] \notin {p, NOBODY} => h.s.gst[c] = g.s.own[c]
(* n CPUs reclaimed: at most the cores needed, at least n if there are *)
ReclaimN(T, g, h, p, op, a, r) ==
  op = "reclaim_cpus" /\ Runs(T, g, p, op, r) /\ a[1] > 0 =>
    LET back == {c \in Owned(g.s, p) : g.s.gst[c] # p /\ h.s.st[c] = "B"
                                         /\ (g.s.gst[c] # NOBODY => h.s.gst[c] # NOBODY)
                                         /\ (g.s.st[c] # "B" \/ g.s.gst[c] # NOBODY)}
    IN Cardinality({c \in back : g.s.st[c] # "B"}) < a[1] + Max({Cardinality(T.core[c]) : c \in Cpus(T)})

(* idle lent CPUs do not stay idle when an eligible process waits for them *)
Served(T, g, h, p, op) ==
  h.s.qen /\ op \in {"lend", "lend_cpu", "lend_mask", "into", "maxpar", "fin", "disable"} =>
  \A c \in Cpus(T) :
    h.s.st[c] = "L" /\ h.s.gst[c] = NOBODY /\ (g.s.gst[c] # NOBODY \/ g.s.st[c] # "L") /\ ~T.smt =>
       /\ \A i \in 1..Len(h.s.rq[c]) : ~CoreEligible(T, h.s, h.s.rq[c][i], c)
       /\ \A i \in 1..Len(h.s.grq) : ~(c \in h.s.grq[i][3] /\ CoreEligible(T, h.s, h.s.grq[i][1], c))
(* requests disappear only if served, cancelled or their process leaves *)
Cancel(op) == op \in {"fin", "disable", "lend", "lend_cpu", "lend_mask", "into", "maxpar"}
QCount(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
KeepRequests(T, g, h, p, op, a, cb) ==
  h.s.init => \A c \in Cpus(T), q \in Ups(h) :
     QCount(h.s.rq[c], q) < QCount(g.s.rq[c], q) =>
         \/ q = p /\ (Cancel(op) \/ (op = "acquire_cpus" /\ a[1] = 0))
         \/ h.s.gst[c] = q /\ (c \in CbSet(cb, q, "E"))
         \/ op = "init" /\ c \in a[1]
         \/ op = "fin" /\ h.s.st[c] = "D"
HowMany(s, q) == FoldLeft(LAMBDA n, x : IF x[1] = q THEN n + x[2] ELSE n, 0, s.grq)
KeepGlobal(T, g, h, p, op, a, cb) ==
  h.s.init => \A q \in Ups(h) : HowMany(h.s, q) < HowMany(g.s, q) =>
         \/ q = p /\ (op \in {"fin", "disable", "maxpar"} \/ (op = "acquire_cpus" /\ a[1] = 0))
         \/ HowMany(g.s, q) - HowMany(h.s, q) <= Cardinality(CbSet(cb, q, "E"))
(* nobody is given more CPUs than it has asked for by other processes' operations *)
OnlyAsked(T, g, h, p, op, cb) ==
  \A q \in Ups(h) \ {p} :
    Cardinality({c \in Cpus(T) : NewGuest(g, h, c) /\ h.s.gst[c] = q /\ h.s.own[c] # q})
      <= (HowMany(g.s, q) - HowMany(h.s, q))
         + FoldSet(LAMBDA c, n : n + (IF QCount(g.s.rq[c], q) > QCount(h.s.rq[c], q) THEN 1 ELSE 0), 0, Cpus(T))
(* first come, first served *)
Fifo(T, g, h, p, op) ==
  ~T.smt /\ op \in {"lend_cpu"} => \A c \in Cpus(T) :
    LET q == h.s.gst[c]
        f == SelectInSeq(Without(g.s.rq[c], p), LAMBDA x : TRUE)
    IN NewGuest(g, h, c) /\ q # h.s.own[c] /\ f # 0 => q = Without(g.s.rq[c], p)[f]

(* limits on the number of CPUs *)
Grain(T) == Max({Cardinality(T.core[c]) : c \in Cpus(T)}) - 1
Limited(T, g, h, p, op, a, r) ==
  LET before == Cardinality(Gst(g.s, p))  after == Cardinality(Gst(h.s, p))
      List  == {"acquire_cpus", "acquire_mask", "acquire_in", "borrow", "borrow_cpus", "borrow_mask", "borrow_in"}
      mp == g.P[p].maxp
      n == IF op \in {"acquire_cpus", "borrow_cpus", "acquire_in", "borrow_in"} THEN a[1] ELSE 0
      got == {c \in Cpus(T) : \/ h.s.gst[c] = p /\ g.s.gst[c] # p
                              \/ h.s.own[c] = p /\ h.s.st[c] = "B" /\ h.s.gst[c] # p /\ g.s.st[c] # "B"}
  IN /\ (op \in List /\ mp > 0 => after <= Max({before, mp + Grain(T)}))
     /\ (op \in List /\ n > 0 => Cardinality(got) <= n + Grain(T))
     /\ (op = "maxpar" /\ Runs(T, g, p, op, r) /\ a[1] > 0 => after <= Max({a[1], 0}))

(* cores are not shared between processes when a CPU is granted *)
OneCore(T, g, h, p, op) ==
  T.smt => \A c \in Cpus(T) :
    NewGuest(g, h, c) /\ h.s.own[c] # h.s.gst[c] =>
       \A k \in T.core[c] : h.s.gst[k] \in {NOBODY, h.s.gst[c]} /\ ~(h.s.st[k] = "B" /\ h.s.own[k] # h.s.gst[c])

(* nothing of a process remains after it leaves *)
Gone(h, p) == /\ \A c \in DOMAIN h.s.own : h.s.own[c] # p /\ h.s.gst[c] # p /\ QCount(h.s.rq[c], p) = 0
              /\ HowMany(h.s, p) = 0
LeftClean(T, g, h, p, op, r) ==
  op = "fin" /\ r = SUCCESS =>
    /\ Gone(h, p)
    /\ \A c \in Owned(g.s, p) : h.s.init => h.s.own[c] = NOBODY /\ h.s.st[c] = IF T.pub \/ ~T.resp THEN "L" ELSE "D"
DisabledOut(T, g, h, p, op, r) ==
  /\ op = "disable" /\ r = SUCCESS /\ T.lewi =>
       /\ Gst(h.s, p) \subseteq Owned(h.s, p)
       /\ \A c \in Owned(h.s, p) : h.s.st[c] = "B" /\ QCount(h.s.rq[c], p) = QCount(g.s.rq[c], p)
       /\ HowMany(h.s, p) = 0 /\ \A c \in Cpus(T) \ Owned(h.s, p) : QCount(h.s.rq[c], p) = 0
  /\ \A q \in Ups(h) \ {p} : ~g.P[q].en => \A c \in Cpus(T) : NewGuest(g, h, c) /\ h.s.gst[c] = q => h.s.own[c] = q

(* blocking calls *)
Blocking(T, g, h, p, op, a, r, cb) ==
  LET m == BlockingMask(T, a[1]) IN
  /\ op = "into" /\ IsBlk(g, T, p) =>
       /\ \A c \in m \cap Cpus(T) : /\ g.s.own[c] = p => h.s.st[c] = "L"
                                    /\ h.s.gst[c] = p => T.async /\ c \in CbSet(cb, p, "E")    \* its own request was served
       /\ \A c \in Cpus(T) \ m : g.s.gst[c] = p => h.s.gst[c] = p
       /\ CbSet(cb, p, "D") = {}
  /\ op = "outof" /\ IsBlk(g, T, p) =>
       \A c \in m \cap Cpus(T) :
          IF g.s.own[c] = p THEN h.s.gst[c] = p \/ (~T.async /\ h.s.st[c] = "B")
          ELSE g.s.gst[c] = NOBODY /\ g.s.st[c] = "L" /\ ~T.smt /\ (m \cap g.P[p].mask = {}) => h.s.gst[c] = p
  /\ op \in {"into", "outof"} /\ ~IsBlk(g, T, p) => h = g

(* results *)
Honest(T, g, h, p, op, a, r, cb) ==
  /\ r < 0 /\ op # "reclaim_mask" => h.s = g.s /\ cb = << >>
  /\ r = NOUPDT /\ op \notin {"check", "return_mask"} =>
        /\ cb = << >> /\ h.s.gst = g.s.gst /\ h.s.own = g.s.own
        /\ h.s.rq = g.s.rq /\ h.s.grq = g.s.grq
  /\ op \in {"acquire_cpu", "borrow_cpu", "reclaim_cpu"} /\ r = SUCCESS =>
        h.s.gst[a[1]] = p /\ g.s.gst[a[1]] # p
  /\ op \in {"acquire_cpu", "acquire_cpus", "acquire_mask", "acquire_in", "borrow", "borrow_cpus", "borrow_mask", "borrow_in"}
        /\ r = SUCCESS /\ ~(op = "acquire_cpus" /\ a[1] = 0) => CbSet(cb, p, "E") # {}
  /\ op \in {"acquire_cpu", "acquire_cpus", "acquire_in", "acquire_mask", "reclaim", "reclaim_cpu", "reclaim_mask", "reclaim_cpus"}
        /\ r = NOTED =>
        \/ h.s.rq # g.s.rq \/ h.s.grq # g.s.grq
        \/ \E c \in CbSet(cb, p, "E") : g.s.own[c] = p /\ g.s.gst[c] \notin {p, NOBODY}
  /\ op = "check" => (r = SUCCESS <=> g.P[p].ph = "init" /\ T.lewi /\ g.P[p].en /\ a[1] \in Cpus(T) /\ h.s.gst[a[1]] = p
                                       /\ ~(g.s.st[a[1]] # "L" /\ g.s.own[a[1]] # p))

Broken(T, g, V, h, W, p, op, a, r, cb) ==
  { x[1] : x \in { y \in {
     <<"C01.exclusive",  Exclusive(T, h, W)>>,
     <<"C01.notlost",    NotLost(T, h, W)>>,
     <<"C07.alive",      OwnedAlive(T, h)>>,
     <<"C03.freeset",    FreeSet(T, h)>>,
     <<"C03.occset",     OccSet(T, h)>>,
     <<"C02.onlylent",   OnlyLent(T, g, h)>>,
     <<"C02.notstolen",  NotStolen(T, g, h, p, cb)>>,
     <<"C02.owner",      OwnerDecides(T, g, h, p, op)>>,
     <<"C02.available",  Available(T, g, h, p, op, a, r)>>,
     <<"C03.recovered",  Recovered(T, g, h, p, op, a, r, cb)>>,
     <<"C03.returned",   Returned(T, g, h, p, op, a, r)>>,
     <<"C03.count",      ReclaimN(T, g, h, p, op, a, r)>>,
     <<"C04.served",     Served(T, g, h, p, op)>>,
     <<"C04.keep",       KeepRequests(T, g, h, p, op, a, cb)>>,
     <<"C04.keepglobal", KeepGlobal(T, g, h, p, op, a, cb)>>,
     <<"C04.onlyasked",  OnlyAsked(T, g, h, p, op, cb)>>,
     <<"C04.fifo",       Fifo(T, g, h, p, op)>>,
     <<"C05.limited",    Limited(T, g, h, p, op, a, r)>>,
     <<"C06.onecore",    OneCore(T, g, h, p, op)>>,
     <<"C07.clean",      LeftClean(T, g, h, p, op, r)>>,
     <<"C07.disabled",   DisabledOut(T, g, h, p, op, r)>>,
     <<"C08.blocking",   Blocking(T, g, h, p, op, a, r, cb)>>,
     <<"C09.honest",     Honest(T, g, h, p, op, a, r, cb)>> } : ~y[2] } }
=============================================================================
