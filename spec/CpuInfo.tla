------------------------------ MODULE CpuInfo ------------------------------
(* The CPU table shared by all the processes of a node and the LeWI (mask)   *)
(* policy that operates on it.                                               *)
(*                                                                           *)
(* The table is a record  s ; every public operation is an operator          *)
(*        Do(T, g, p, op, a) -> [g |-> new node, r |-> result, cb |-> callbacks]  *)
(* so the same definition is used by the exhaustive model (MC_CpuInfo), by   *)
(* the trace validator (Trace_CpuInfo) and by the composition with DROM.     *)
(*                                                                           *)
(* T  (constant of a run): n CPUs 0..n-1, smt, core[c] and node[c] sets of   *)
(*    CPUs, async (mode), pub (CPUs of departed processes become public),    *)
(*    resp (cpuset respected), aff (affinity policy), keep (keep one core in *)
(*    blocking calls), maxp (initial max parallelism), lewi (policy active). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

NOBODY  == 0
SUCCESS == 0   NOTED == 1   NOUPDT == 2
NOINIT == -2  INITED == -3  DISBLD == -4  NOPROC == -6  PDIRTY == -7 PERM == -8  NOCOMP == -12  REQST == -13  NOPOL == -15  NOLEWI == -17
QCAP == 7               (* capacity of the request queue of a CPU *)

Cpus(T) == 0 .. (T.n - 1)
Asc(S)  == SetToSortSeq(S, LAMBDA x, y : x < y)
Min2(x, y) == IF x < y THEN x ELSE y

EmptyTable(T) ==
  [ init |-> FALSE,
    own  |-> [c \in Cpus(T) |-> NOBODY],       \* owner
    gst  |-> [c \in Cpus(T) |-> NOBODY],       \* guest: current user
    st   |-> [c \in Cpus(T) |-> "D"],          \* D disabled, B busy, L lent (owner's point of view)
    rq   |-> [c \in Cpus(T) |-> << >>],        \* per CPU queue of requesting pids
    grq  |-> << >>,                            \* queue of <<pid, how many, allowed set>>
    free |-> {},                               \* CPUs marked idle
    occ  |-> {},                               \* CPUs in cores used by others than their owner
    qen  |-> FALSE ]                           \* request queues enabled

NewProc == [ ph |-> "none", en |-> FALSE, maxp |-> 0, stale |-> FALSE,
             pend |-> {}, mask |-> {}, prio |-> << >> ]

(*---------------------------------------------------------------------------*)
(* Derived predicates                                                        *)
CoreEligible(T, s, p, c) ==
  IF T.smt THEN \A k \in T.core[c] : /\ s.gst[k] \in {p, NOBODY}
                                     /\ ~(s.st[k] = "B" /\ s.own[k] # p)
  ELSE s.own[c] = p \/ s.gst[c] \in {p, NOBODY}

CpuOccupied(s, o, c)     == s.gst[c] # NOBODY /\ o # NOBODY /\ s.gst[c] # o
CoreOccupied(T, s, o, c) == o # NOBODY /\ \E k \in T.core[c] : s.gst[k] \notin {NOBODY, o}

UpdOcc(T, s, o, c) ==
  [s EXCEPT !.occ =
     IF T.smt THEN
        IF CpuOccupied(s, o, c) THEN IF c \in s.occ THEN @ ELSE @ \cup T.core[c]
        ELSE IF c \notin s.occ THEN @
        ELSE IF CoreOccupied(T, s, o, c) THEN @ \cup T.core[c] ELSE @ \ T.core[c]
     ELSE IF CpuOccupied(s, o, c) THEN @ \cup {c} ELSE @ \ {c}]

(* priority order in which a process with this mask looks for CPUs *)
Priority(T, mask) ==
  LET near == UNION {T.node[c] : c \in mask}
      fst  == IF mask = {} THEN 0 ELSE Min(mask)
      own  == Asc(mask)
      l1   == Asc({c \in near \ mask : c > fst}) \o Asc({c \in near \ mask : c < fst})
      l2   == Asc(Cpus(T) \ near)
  IN IF mask = {} THEN Asc(Cpus(T)) ELSE
     CASE T.aff = "nearby-only"    -> own \o l1
       [] T.aff = "spread-ifempty" -> own
       [] OTHER                    -> own \o l1 \o l2

(*---------------------------------------------------------------------------*)
(* Request queues                                                            *)
DelAt(q, i)    == SubSeq(q, 1, i-1) \o SubSeq(q, i+1, Len(q))
Without(q, p)  == SelectSeq(q, LAMBDA x : x # p)
WithoutG(q, p) == SelectSeq(q, LAMBDA x : x[1] # p)

(* who gets CPU c now that nobody uses it *)
FindGuest(T, s, c) ==
  IF s.st[c] = "B" THEN [s |-> s, g |-> s.own[c]]
  ELSE IF s.qen /\ s.st[c] = "L" THEN
    LET i == SelectInSeq(s.rq[c], LAMBDA x : CoreEligible(T, s, x, c)) IN
    IF i # 0 THEN [s |-> [s EXCEPT !.rq[c] = DelAt(@, i)], g |-> s.rq[c][i]]
    ELSE LET j == SelectInSeq(s.grq, LAMBDA x : c \in x[3] /\ CoreEligible(T, s, x[1], c)) IN
      IF j = 0 THEN [s |-> s, g |-> NOBODY]
      ELSE [s |-> IF s.grq[j][2] = 1 THEN [s EXCEPT !.grq = DelAt(@, j)]
                  ELSE [s EXCEPT !.grq[j][2] = @ - 1],
            g |-> s.grq[j][1]]
  ELSE [s |-> s, g |-> NOBODY]

(* an accumulator: table, tasks <<action, pid, cpu>>, result, spare counter, stop flag *)
Acc(s) == [s |-> s, t |-> << >>, r |-> NOUPDT, n |-> 0, stop |-> FALSE, core |-> -1]
Task(a, act, p, c) == [a EXCEPT !.t = Append(@, <<act, p, c>>)]

(*---------------------------------------------------------------------------*)
(* Elementary operations on one CPU (one critical section may apply several) *)
LendCpu(T, a0, p, c) ==
  LET s1 == IF a0.s.own[c] = p THEN [a0.s EXCEPT !.st[c] = "L"]
            ELSE IF a0.s.qen THEN [a0.s EXCEPT !.rq[c] = Without(@, p)] ELSE a0.s
      s2 == IF s1.gst[c] = p THEN [s1 EXCEPT !.gst[c] = NOBODY] ELSE s1
      Sib(a, k) == IF k = c \/ a.s.gst[k] # NOBODY THEN a ELSE
                   LET f == FindGuest(T, a.s, k) IN
                   IF f.g = NOBODY THEN a
                   ELSE Task([a EXCEPT !.s = [f.s EXCEPT !.gst[k] = f.g, !.free = @ \ {k}]], "E", f.g, k)
      f1 == FindGuest(T, s2, c)
      a1 == IF s2.gst[c] # NOBODY \/ f1.g = NOBODY THEN [a0 EXCEPT !.s = s2]
            ELSE FoldLeft(Sib, Task([a0 EXCEPT !.s = [f1.s EXCEPT !.gst[c] = f1.g]], "E", f1.g, c),
                          Asc(T.core[c]))
      s3 == IF a1.s.gst[c] = NOBODY THEN [a1.s EXCEPT !.free = @ \cup {c}] ELSE a1.s
  IN [a1 EXCEPT !.s = UpdOcc(T, s3, s3.own[c], c)]

ReclaimCpu(T, a, p, c) ==
  IF a.s.own[c] # p THEN [a EXCEPT !.r = PERM]
  ELSE LET b == [a EXCEPT !.s.st[c] = "B"] IN
    CASE a.s.gst[c] = p      -> [b EXCEPT !.r = NOUPDT]
      [] a.s.gst[c] = NOBODY -> Task([b EXCEPT !.s.gst[c] = p, !.s.free = @ \ {c}, !.r = SUCCESS], "E", p, c)
      [] OTHER               -> Task(Task([b EXCEPT !.r = NOTED], "D", a.s.gst[c], c), "E", p, c)

AcquireCpu(T, a, p, c) ==
  LET s == a.s IN
  IF s.gst[c] = p THEN [a EXCEPT !.r = NOUPDT]
  ELSE IF s.own[c] = p THEN
    LET b == [a EXCEPT !.s.st[c] = "B"] IN
    IF s.gst[c] = NOBODY
    THEN Task([b EXCEPT !.s.gst[c] = p, !.s.free = @ \ {c}, !.r = SUCCESS], "E", p, c)
    ELSE Task(Task([b EXCEPT !.s = IF c \in s.occ THEN @ ELSE UpdOcc(T, @, p, c), !.r = NOTED],
                   "D", s.gst[c], c), "E", p, c)
  ELSE IF s.gst[c] = NOBODY /\ s.st[c] = "L" /\ CoreEligible(T, s, p, c) THEN
    LET s1 == [s EXCEPT !.gst[c] = p]
        s2 == IF s.own[c] # NOBODY /\ c \notin s.occ THEN UpdOcc(T, s1, s.own[c], c) ELSE s1
    IN Task([a EXCEPT !.s = [s2 EXCEPT !.free = @ \ {c}], !.r = SUCCESS], "E", p, c)
  ELSE IF s.st[c] # "D" THEN
    IF ~s.qen THEN [a EXCEPT !.r = NOUPDT]
    ELSE IF Len(s.rq[c]) < QCAP THEN [a EXCEPT !.s.rq[c] = Append(@, p), !.r = NOTED]
    ELSE [a EXCEPT !.r = REQST]
  ELSE [a EXCEPT !.r = PERM]

BorrowCpu(T, a, p, c) ==
  LET s == a.s IN
  IF s.gst[c] = NOBODY /\ CoreEligible(T, s, p, c) /\ (s.own[c] = p \/ s.st[c] = "L") THEN
    LET s1 == [s EXCEPT !.gst[c] = p, !.free = @ \ {c}]
        s2 == IF s.own[c] = p THEN [s1 EXCEPT !.st[c] = "B"]
              ELSE IF s.own[c] # NOBODY /\ c \notin s.occ THEN UpdOcc(T, s1, s.own[c], c) ELSE s1
    IN Task([a EXCEPT !.s = s2, !.r = SUCCESS], "E", p, c)
  ELSE [a EXCEPT !.r = NOUPDT]

ReturnCpu(T, a, p, c) ==
  LET s == a.s IN
  IF s.own[c] = p \/ s.gst[c] # p \/ (s.st[c] = "L" /\ CoreEligible(T, s, p, c))
  THEN [a EXCEPT !.r = NOUPDT]
  ELSE LET s1 == IF s.st[c] = "B" THEN [s EXCEPT !.gst[c] = s.own[c]]
                 ELSE [s EXCEPT !.gst[c] = NOBODY, !.free = @ \cup {c}]
       IN Task([a EXCEPT !.s = UpdOcc(T, s1, s1.own[c], c), !.r = SUCCESS], "D", p, c)

(* the whole core: stop at the first CPU that cannot be obtained *)
CoreOp(T, Op(_, _, _, _), a0, p, c) ==
  LET Step(a, k) ==
        IF a.stop THEN a ELSE
        LET b == Op(T, a, p, k) IN
        IF b.r \in {SUCCESS, NOTED}
        THEN [b EXCEPT !.n = a.n + 1, !.r = IF a.r = NOTED THEN NOTED ELSE b.r]
        ELSE [b EXCEPT !.r = a.r, !.n = a.n, !.stop = b.s.gst[k] # p]
  IN FoldLeft(Step, [a0 EXCEPT !.r = NOUPDT, !.n = 0, !.stop = FALSE], Asc(T.core[c]))

(* iterate a list of CPUs until 'want' are obtained, core by core with SMT;
   result .n holds how many are still wanted *)
ListOp(T, Op(_, _, _, _), s0, t0, p, list, want) ==
  LET Step(a, c) ==
        IF a.n <= 0 THEN a
        ELSE IF T.smt THEN
          IF a.core = Min(T.core[c]) THEN a
          ELSE LET b == CoreOp(T, Op, a, p, c) IN
            [b EXCEPT !.core = Min(T.core[c]), !.stop = FALSE,
                      !.n = IF b.r \in {SUCCESS, NOTED} THEN a.n - b.n ELSE a.n,
                      !.r = IF b.r \in {SUCCESS, NOTED} /\ a.r # NOTED THEN b.r ELSE a.r]
        ELSE LET b == Op(T, a, p, c) IN
            [b EXCEPT !.n = IF b.r \in {SUCCESS, NOTED} THEN a.n - 1 ELSE a.n,
                      !.r = IF b.r \in {SUCCESS, NOTED} /\ a.r # NOTED THEN b.r ELSE a.r]
  IN FoldLeft(Step, [Acc(s0) EXCEPT !.t = t0, !.n = want], list)

INF == 1000000

(*---------------------------------------------------------------------------*)
(* Registration                                                              *)
InitTable(T, s) ==
  IF s.init THEN s
  ELSE LET e == [EmptyTable(T) EXCEPT !.init = TRUE] IN
       IF T.resp THEN e ELSE [e EXCEPT !.st = [c \in Cpus(T) |-> "L"], !.free = Cpus(T)]

RegisterCpu(T, s, p, pre, c) ==
  LET s1 == [s EXCEPT !.own[c] = p, !.st[c] = "B",
                      !.gst[c] = IF @ \in {NOBODY, pre} THEN p ELSE @, !.free = @ \ {c}]
  IN [UpdOcc(T, s1, p, c) EXCEPT !.rq[c] = << >>]

RegisterMask(T, s, p, pre, mask) ==
  FoldLeft(LAMBDA x, c : RegisterCpu(T, x, p, pre, c), s, Asc(mask))

CanRegister(s, p, pre, mask) == \A c \in mask : s.own[c] \in {NOBODY, p, pre}

(* forget p without notifying anyone (departure of a process without LeWI,
   of a pre-initialised one, or of a dead one) *)
ForgetCpu(T, s, p, c) ==
  IF s.own[c] = p THEN
    LET s1 == [s EXCEPT !.own[c] = NOBODY, !.gst[c] = IF @ = p THEN NOBODY ELSE @]
        s2 == IF T.pub \/ ~T.resp
              THEN [s1 EXCEPT !.st[c] = "L", !.free = IF s1.gst[c] = NOBODY THEN @ \cup {c} ELSE @]
              ELSE [s1 EXCEPT !.st[c] = "D", !.rq[c] = << >>, !.free = @ \ {c}]
    IN [s2 EXCEPT !.occ = @ \ T.core[c]]
  ELSE LET s1 == IF s.gst[c] = p THEN [s EXCEPT !.gst[c] = NOBODY, !.free = @ \cup {c}] ELSE s
       IN IF s.qen THEN [s1 EXCEPT !.rq[c] = Without(@, p)] ELSE s1

ForgetProc(T, s, p) ==
  LET s1 == FoldLeft(LAMBDA x, c : ForgetCpu(T, x, p, c), s, Asc(Cpus(T)))
  IN IF s.qen THEN [s1 EXCEPT !.grq = WithoutG(@, p)] ELSE s1

(* what a process that crashed had *)
CrashProc(T, s, p) == ForgetProc(T, s, p)

DropRequests(T, s, p, all) ==
  IF ~s.qen THEN s
  ELSE [s EXCEPT !.grq = WithoutG(@, p),
                 !.rq = [c \in Cpus(T) |-> IF all \/ s.own[c] # p THEN Without(@[c], p) ELSE @[c]]]

(* LeWI departure *)
Deregister(T, s, p) ==
  LET Step(a, c) ==
        IF a.s.own[c] = p THEN
          LET b  == IF T.pub \/ ~T.resp THEN LendCpu(T, a, p, c)
                    ELSE LET x == ReclaimCpu(T, a, p, c) IN
                      [x EXCEPT !.s.gst[c] = IF @ = p THEN NOBODY ELSE @,
                                !.s.st[c] = "D", !.s.free = @ \ {c}]
          IN [b EXCEPT !.s.own[c] = NOBODY, !.s.occ = @ \ {c}]
        ELSE IF a.s.gst[c] = p THEN LendCpu(T, a, p, c) ELSE a
  IN FoldLeft(Step, Acc(DropRequests(T, s, p, FALSE)), Asc(Cpus(T)))

(* LeWI disabled: recover what is owned, give back what is borrowed *)
ResetProc(T, s, p) ==
  LET Step(a, c) ==
        IF a.s.own[c] = p THEN ReclaimCpu(T, a, p, c)
        ELSE IF a.s.gst[c] = p THEN Task(LendCpu(T, a, p, c), "D", p, c) ELSE a
  IN FoldLeft(Step, Acc(DropRequests(T, s, p, FALSE)), Asc(Cpus(T)))

(* limit: lend owned CPUs beyond max, then guested ones *)
LimitProc(T, s, p, max) ==
  LET Own(a, c) ==
        IF a.s.own[c] # p THEN a
        ELSE LET k == a.n + 1 IN
          IF max < k THEN [Task(LendCpu(T, a, p, c), "D", p, c) EXCEPT !.n = k] ELSE [a EXCEPT !.n = k]
      (* the guested CPUs are those seen while scanning upwards *)
      Scan(x, c) == [a |-> Own(x.a, c),
                     g |-> IF x.a.s.own[c] # p /\ x.a.s.gst[c] = p THEN Append(x.g, c) ELSE x.g]
      x  == FoldLeft(Scan, [a |-> Acc(DropRequests(T, s, p, TRUE)), g |-> << >>], Asc(Cpus(T)))
      Gst(y, c) == [y EXCEPT !.i = @ + 1,
                             !.a = IF max < x.a.n + y.i + 1 THEN Task(LendCpu(T, y.a, p, c), "D", p, c) ELSE y.a]
  IN FoldLeft(Gst, [a |-> x.a, i |-> 0], x.g).a

(* DROM: the process now has this mask *)
UpdateOwnership(T, s, p, mask) ==
  LET Step(a, c) ==
        IF c \in mask THEN
          IF a.s.own[c] = p THEN a ELSE
          LET s1 == [a.s EXCEPT !.own[c] = p, !.st[c] = "B"]
              s2 == IF s1.gst[c] = NOBODY
                    THEN [s1 EXCEPT !.gst[c] = p, !.free = @ \ {c}, !.occ = @ \ {c}]
                    ELSE IF s1.gst[c] # p THEN UpdOcc(T, s1, p, c) ELSE s1
              b  == [a EXCEPT !.s = s2]
              b1 == IF s2.gst[c] # p THEN Task(b, "D", s2.gst[c], c) ELSE b
          IN Task(b1, "E", p, c)
        ELSE IF a.s.own[c] = p THEN
          LET s1 == [a.s EXCEPT !.own[c] = NOBODY, !.st[c] = "D"] IN
          IF s1.gst[c] = p
          THEN Task([a EXCEPT !.s = [s1 EXCEPT !.gst[c] = NOBODY, !.free = @ \ {c}]], "D", p, c)
          ELSE [a EXCEPT !.s = s1]
        ELSE IF a.s.gst[c] = p /\ a.s.st[c] = "B" THEN ReturnCpu(T, a, p, c)
        ELSE a
  IN FoldLeft(Step, Acc(s), Asc(Cpus(T)))

(*---------------------------------------------------------------------------*)
(* Applying the tasks: the caller runs its own callbacks; in asynchronous    *)
(* mode the other processes are told by their helper thread and the CPUs     *)
(* that they are asked to leave are handed over right away.                  *)
ReturnAsync(T, s, p, c) ==
  IF s.own[c] = p \/ s.gst[c] # p THEN s ELSE
  LET s1 == IF s.st[c] = "B" THEN [s EXCEPT !.gst[c] = s.own[c]]
            ELSE [s EXCEPT !.gst[c] = NOBODY, !.free = @ \cup {c}]
      s2 == UpdOcc(T, s1, s1.own[c], c)
  IN IF Len(s2.rq[c]) < QCAP THEN [s2 EXCEPT !.rq[c] = Append(@, p)] ELSE s2

(* tasks of p come grouped: first all its enabled CPUs, then the disabled ones *)
Resolve(T, s, caller, tasks) ==
  LET pids == {tasks[i][2] : i \in 1..Len(tasks)}
      dis(q) == {tasks[i][3] : i \in {j \in 1..Len(tasks) : tasks[j][2] = q /\ tasks[j][1] = "D"}}
      ena(q) == {tasks[i][3] : i \in {j \in 1..Len(tasks) : tasks[j][2] = q /\ tasks[j][1] = "E"}}
      One(x, q) ==
        IF q = caller \/ T.async
        THEN [ s  |-> IF q = caller THEN x.s
                      ELSE FoldLeft(LAMBDA y, c : ReturnAsync(T, y, q, c), x.s, Asc(dis(q))),
               cb |-> x.cb \o [i \in 1..Cardinality(ena(q)) |-> <<q, "E", Asc(ena(q))[i]>>]
                           \o [i \in 1..Cardinality(dis(q)) |-> <<q, "D", Asc(dis(q))[i]>>] ]
        ELSE x
  IN FoldLeft(One, [s |-> s, cb |-> << >>], Asc(pids))

(*---------------------------------------------------------------------------*)
(* The public operations of the LeWI mask policy.                            *)
(* A node state is g = [ s |-> table, P |-> [pid -> process record] ].       *)
Node0(T, PIDS) == [s |-> EmptyTable(T), P |-> [p \in PIDS |-> NewProc]]

Up(P)        == [q \in DOMAIN P |-> [P[q] EXCEPT !.stale = FALSE]]     \* somebody lent: nobody's failed search is recent
Res(g, r, cb)  == [g |-> g, r |-> r, cb |-> cb]
Fin(T, g, a, p, r) ==                                                    \* resolve tasks of a
  LET x == Resolve(T, a.s, p, a.t)
      mine == {a.t[i][3] : i \in {j \in 1..Len(a.t) : a.t[j][1] = "E" /\ a.t[j][2] = p}}
  IN Res([g EXCEPT !.s = x.s, !.P[p].pend = @ \ mine], r, x.cb)
NoTasks(g, a, r) == Res([g EXCEPT !.s = a.s], r, << >>)

Guested(T, s, p)  == {c \in Cpus(T) : s.gst[c] = p}
Sub(list, mask)    == SelectSeq(list, LAMBDA c : c \in mask)

DoLendMask(T, g, p, mask) ==
  LET a  == FoldLeft(LAMBDA x, c : LendCpu(T, x, p, c), Acc(g.s), Asc(mask \cap Cpus(T)))
      g1 == [g EXCEPT !.P = [Up(@) EXCEPT ![p].pend = @ \ mask]]
  IN IF T.async THEN Fin(T, g1, a, p, SUCCESS) ELSE NoTasks(g1, a, SUCCESS)

DoLendCpu(T, g, p, c) ==
  IF c \notin Cpus(T) THEN Res(g, PERM, << >>) ELSE DoLendMask(T, g, p, {c})

DoReclaimMask(T, g, p, mask) ==
  LET Step(a, c) ==
        LET b == ReclaimCpu(T, a, p, c) IN
        [b EXCEPT !.r = CASE b.r = PERM -> PERM
                          [] b.r = NOTED -> IF a.r < 0 THEN a.r ELSE NOTED
                          [] b.r = SUCCESS -> IF a.r = NOUPDT THEN SUCCESS ELSE a.r
                          [] OTHER -> a.r]
      a == FoldLeft(Step, Acc(g.s), Asc((g.s.free \cup g.s.occ) \cap mask))
  IN Fin(T, g, a, p, a.r)

DoReclaimCpu(T, g, p, c) ==
  IF c \notin Cpus(T) THEN Res(g, PERM, << >>) ELSE
  LET a == ReclaimCpu(T, Acc(g.s), p, c)
      Sib(x, k) == IF k # c /\ x.s.gst[k] \notin {p, NOBODY} THEN Task(x, "D", x.s.gst[k], k) ELSE x
      b == IF a.r = NOTED /\ T.smt THEN FoldLeft(Sib, a, Asc(T.core[c])) ELSE a
  IN Fin(T, g, b, p, b.r)

DoReclaimCpus(T, g, p, n) ==
  LET cores == SetToSortSeq({T.core[c] : c \in Cpus(T)}, LAMBDA x, y : Min(x) < Min(y))
      Step(x, k) ==
        IF x.want <= 0 THEN x ELSE
        LET b == CoreOp(T, ReclaimCpu, x.a, p, Min(k)) IN
        [want |-> IF b.r \in {SUCCESS, NOTED} THEN x.want - b.n ELSE x.want,
         r    |-> CASE b.r = NOTED -> NOTED
                    [] b.r = SUCCESS -> IF x.r = NOTED THEN NOTED ELSE SUCCESS
                    [] OTHER -> x.r,
         a    |-> b]
      z == FoldLeft(Step, [want |-> n, r |-> NOUPDT, a |-> Acc(g.s)], cores)
  IN IF z.r \in {SUCCESS, NOTED} THEN Fin(T, g, z.a, p, z.r) ELSE NoTasks(g, z.a, z.r)

DoAcquireCpu(T, g, p, c) ==
  IF c \notin Cpus(T) THEN Res(g, PERM, << >>) ELSE
  LET a == AcquireCpu(T, Acc(g.s), p, c) IN
  IF a.r \in {SUCCESS, NOTED} THEN Fin(T, g, a, p, a.r) ELSE NoTasks(g, a, a.r)

(* n = 0: no limit *)
(* whole: every CPU is considered; only such a search, if it fails, makes the next ones useless *)
DoAcquireIn(T, g, p, n, mask, whole) ==
  LET s == g.s  pr == g.P[p]
      list == Sub(pr.prio, mask)
      firstForeign == SelectInSeq(list, LAMBDA c : s.own[c] # p)
      head == IF firstForeign = 0 THEN list ELSE SubSeq(list, 1, firstForeign - 1)
      allGuested == \A i \in 1..Len(head) : s.gst[head[i]] = p
      room == pr.maxp - Cardinality(Guested(T, s, p))
      want0 == IF n > 0 THEN n ELSE T.n
      want == IF pr.maxp # 0 THEN Min2(want0, room) ELSE want0
      l1 == SelectSeq(list, LAMBDA c : s.own[c] = p /\ s.gst[c] = NOBODY)
      l2 == SelectSeq(list, LAMBDA c : s.own[c] = p /\ s.gst[c] \notin {p, NOBODY})
      l3 == SelectSeq(list, LAMBDA c : s.own[c] # p /\ s.gst[c] = NOBODY)
      Join(r, q) == IF q \in {SUCCESS, NOTED} /\ r # NOTED THEN q ELSE r
      a1 == ListOp(T, AcquireCpu, s, << >>, p, l1, want)
      a2 == ListOp(T, AcquireCpu, a1.s, a1.t, p, l2, a1.n)
      a3 == ListOp(T, BorrowCpu, a2.s, a2.t, p, l3, a2.n)
      r3 == Join(Join(a1.r, a2.r), a3.r)
      ask == s.qen /\ n > 0 /\ a3.n > 0
      set == {list[i] : i \in 1..Len(list)}
      j  == SelectInSeq(a3.s.grq, LAMBDA x : x[1] = p /\ x[3] = set)
      s4 == IF ~ask THEN a3.s
            ELSE IF j # 0 THEN [a3.s EXCEPT !.grq[j][2] = @ + a3.n]
            ELSE [a3.s EXCEPT !.grq = Append(@, <<p, a3.n, set>>)]
      r4 == IF ask THEN NOTED ELSE r3
      g1 == IF ~T.async /\ whole /\ r4 \notin {SUCCESS, NOTED} THEN [g EXCEPT !.P[p].stale = TRUE] ELSE g
  IN IF ~T.async /\ whole /\ pr.stale /\ allGuested THEN Res(g, NOUPDT, << >>)
     ELSE IF pr.maxp # 0 /\ room <= 0 THEN Res(g, NOUPDT, << >>)
     ELSE IF r4 # NOUPDT THEN Fin(T, g1, [a3 EXCEPT !.s = s4], p, r4)
     ELSE NoTasks(g1, [a3 EXCEPT !.s = s4], r4)

DoAcquireCpus(T, g, p, n) ==
  IF n = 0 THEN Res([g EXCEPT !.s = DropRequests(T, @, p, TRUE)], SUCCESS, << >>)
  ELSE IF n < 0 THEN Res(g, NOUPDT, << >>)
  ELSE DoAcquireIn(T, g, p, n, Cpus(T), TRUE)

DoBorrowIn(T, g, p, n, mask, whole) ==
  LET s == g.s  pr == g.P[p]
      list == Sub(pr.prio, mask)
      room == pr.maxp - Cardinality(Guested(T, s, p))
      want0 == IF n > 0 THEN n ELSE T.n
      want1 == IF pr.maxp # 0 THEN Min2(want0, room) ELSE want0
      want == IF s.free = {} THEN 0 ELSE want1
      a1 == ListOp(T, BorrowCpu, s, << >>, p, list, want)
      nodes == {T.node[c] : c \in Cpus(T)}
      freeNodes == UNION {N \in nodes : N \subseteq a1.s.free}
      a2 == IF T.aff = "spread-ifempty" /\ a1.n > 0
            THEN ListOp(T, BorrowCpu, a1.s, a1.t, p, Asc(freeNodes), a1.n) ELSE a1
      ok == a1.r = SUCCESS \/ a2.r = SUCCESS
      g1 == IF ~T.async /\ whole /\ ~ok THEN [g EXCEPT !.P[p].stale = TRUE] ELSE g
  IN IF ~T.async /\ whole /\ pr.stale THEN Res(g, NOUPDT, << >>)
     ELSE IF pr.maxp # 0 /\ room <= 0 THEN Res(g, NOUPDT, << >>)
     ELSE IF ok THEN Fin(T, g1, a2, p, SUCCESS) ELSE NoTasks(g1, a2, NOUPDT)

DoBorrowCpu(T, g, p, c) ==
  IF c \notin Cpus(T) THEN Res(g, PERM, << >>) ELSE
  LET a == BorrowCpu(T, Acc(g.s), p, c) IN
  IF a.r = SUCCESS THEN Fin(T, g, a, p, a.r) ELSE NoTasks(g, a, a.r)

Back(g, a) == IF a.t = << >> THEN g ELSE [g EXCEPT !.P = Up(@)]           \* a returned CPU counts as lent

PendCb(p, S) == [i \in 1..Cardinality(S) |-> <<p, "D", Asc(S)[i]>>]
DoReturnAll(T, g, p) ==
  IF T.async THEN Res(g, NOCOMP, << >>) ELSE
  LET Step(a, c) == LET b == ReturnCpu(T, a, p, c) IN [b EXCEPT !.r = IF a.r = NOUPDT THEN b.r ELSE a.r]
      a == FoldLeft(Step, Acc(g.s), Asc(g.s.occ))
      x == Fin(T, Back(g, a), a, p, a.r)
      S == g.P[p].pend
  IN IF S = {} THEN x ELSE Res([x.g EXCEPT !.P[p].pend = {}], SUCCESS, x.cb \o PendCb(p, S))

DoReturnCpu(T, g, p, c) ==
  IF T.async THEN Res(g, NOCOMP, << >>)
  ELSE IF c \in Cpus(T) /\ g.s.gst[c] = p
  THEN LET a == ReturnCpu(T, Acc(g.s), p, c) IN Fin(T, Back(g, a), a, p, a.r)
  ELSE IF c \in g.P[p].pend THEN Res([g EXCEPT !.P[p].pend = @ \ {c}], SUCCESS, <<<<p, "D", c>>>>)
  ELSE Res(g, PERM, << >>)

DoReturnMask(T, g, p, mask) ==
  IF T.async THEN Res(g, NOCOMP, << >>) ELSE
  LET a == FoldLeft(LAMBDA x, c : ReturnCpu(T, x, p, c), Acc(g.s), Asc(g.s.occ \cap mask))
      x == Fin(T, Back(g, a), a, p, a.r)
      S == g.P[p].pend
  IN IF S = {} THEN x
     ELSE Res([x.g EXCEPT !.P[p].pend = @ \ mask], SUCCESS, x.cb \o PendCb(p, S \cap mask))

DoCheck0(T, g, p, c) ==
  LET s == g.s IN
  IF c \notin Cpus(T) THEN Res(g, PERM, << >>)
  ELSE IF s.own[c] # p /\ s.st[c] # "L" THEN Res(g, PERM, << >>)
  ELSE IF s.gst[c] = p THEN Res(g, SUCCESS, << >>)
  ELSE IF s.gst[c] = NOBODY
       THEN IF CoreEligible(T, s, p, c)
            THEN Res([g EXCEPT !.s = UpdOcc(T, [s EXCEPT !.gst[c] = p, !.free = @ \ {c}], s.own[c], c)], SUCCESS, << >>)
            ELSE Res(g, NOTED, << >>)
  ELSE IF s.own[c] = p /\ s.st[c] = "L" THEN Res(g, NOUPDT, << >>)
  ELSE Res(g, NOTED, << >>)
DoCheck(T, g, p, c) ==
  LET x == DoCheck0(T, g, p, c)
  IN IF x.r = SUCCESS THEN [x EXCEPT !.g.P[p].pend = @ \ {c}] ELSE x

(* CPUs lent around a blocking call made by a thread bound to aff *)
BlockingMask(T, aff) == IF T.keep THEN aff \ T.core[Min(aff)] ELSE aff

DoInto(T, g, p, aff) ==
  LET m == BlockingMask(T, aff) IN
  IF m = {} THEN Res(g, 0, << >>) ELSE LET x == DoLendMask(T, g, p, m) IN Res(x.g, 0, x.cb)

DoOutOf(T, g, p, aff) ==
  LET m   == BlockingMask(T, aff)
      ow  == m \cap g.P[p].mask
      no  == m \ g.P[p].mask
      a   == ListOp(T, AcquireCpu, g.s, << >>, p, Asc(ow), INF)
      dis == SelectSeq(a.t, LAMBDA t : t[1] = "D")
      b   == ListOp(T, BorrowCpu, g.s, << >>, p, Asc(no), INF)
  IN IF m = {} THEN Res(g, 0, << >>)
     ELSE IF ow # {} THEN
        IF a.r = NOTED /\ T.async THEN Fin(T, g, [a EXCEPT !.t = dis], p, 0) ELSE NoTasks(g, a, 0)
     ELSE LET g1   == [g EXCEPT !.s = b.s]
              (* what could not be taken again; the CPUs of a core are tried one by one too *)
              x    == FoldLeft(LAMBDA y, c : LET z == DoCheck(T, y.g, p, c) IN
                                 [g |-> z.g, lost |-> IF z.r = SUCCESS \/ z.g.s.gst[c] = p THEN y.lost ELSE y.lost \cup {c}],
                               [g |-> g1, lost |-> {}], Asc(no))
          IN Res([x.g EXCEPT !.P[p].pend = @ \cup x.lost], 0, IF T.async THEN PendCb(p, x.lost) ELSE << >>)

DoInit(T, g, p, mask) ==
  LET s1 == RegisterMask(T, InitTable(T, g.s), p, 0, mask)
  IN Res([s |-> IF T.async /\ T.lewi THEN [s1 EXCEPT !.qen = TRUE] ELSE s1,
          P |-> [g.P EXCEPT ![p] = [NewProc EXCEPT !.ph = "init", !.en = TRUE, !.maxp = T.maxp,
                                                   !.mask = mask, !.prio = Priority(T, mask)]]], SUCCESS, << >>)

Attached(P) == {q \in DOMAIN P : P[q].ph = "init"}
DoFin(T, g, p) ==
  LET a  == IF T.lewi THEN Deregister(T, g.s, p) ELSE Acc(g.s)
      x  == Resolve(T, a.s, p, a.t)
      s2 == ForgetProc(T, x.s, p)
      P2 == [Up(g.P) EXCEPT ![p] = [NewProc EXCEPT !.ph = "fin"]]
      cb == SelectSeq(x.cb, LAMBDA t : t[1] # p)          \* p removed its callbacks first
  IN Res([s |-> IF Attached(P2) = {} THEN EmptyTable(T) ELSE s2, P |-> P2], SUCCESS, cb)

DoEnable(T, g, p) == IF g.P[p].en THEN Res(g, NOUPDT, << >>)
                     ELSE Res([g EXCEPT !.P[p].en = TRUE, !.P[p].stale = FALSE], SUCCESS, << >>)
DoDisable(T, g, p) ==
  IF ~g.P[p].en THEN Res(g, NOUPDT, << >>)
  ELSE IF ~T.lewi THEN Res([g EXCEPT !.P[p].en = FALSE], SUCCESS, << >>)
  ELSE Fin(T, [g EXCEPT !.P = [Up(@) EXCEPT ![p].en = FALSE]], ResetProc(T, g.s, p), p, SUCCESS)
DoMaxPar(T, g, p, n) ==
  IF n <= 0 THEN Res(g, SUCCESS, << >>)
  ELSE Fin(T, [g EXCEPT !.P = [Up(@) EXCEPT ![p].maxp = n]], LimitProc(T, g.s, p, n), p, SUCCESS)

Gated == {"maxpar", "unsetmax", "lend", "lend_cpu", "lend_cpus", "lend_mask", "reclaim", "reclaim_cpu",
          "reclaim_cpus", "reclaim_mask", "acquire_cpu", "acquire_cpus", "acquire_mask", "acquire_in",
          "borrow", "borrow_cpu", "borrow_cpus", "borrow_mask", "borrow_in", "return", "return_cpu",
          "return_mask", "check", "into", "outof"}

Do(T, g, p, op, a) ==
  LET up == g.P[p].ph = "init" IN
  IF op = "init" THEN IF up THEN Res(g, INITED, << >>) ELSE DoInit(T, g, p, a[1])
  ELSE IF op = "fin" THEN IF up THEN DoFin(T, g, p) ELSE Res(g, NOUPDT, << >>)
  ELSE IF op \in {"into", "outof"} /\ (~up \/ ~T.lewi \/ ~g.P[p].en) THEN Res(g, 0, << >>)
  ELSE IF ~up THEN Res(g, NOINIT, << >>)
  ELSE IF op \in Gated /\ ~T.lewi THEN Res(g, NOLEWI, << >>)
  ELSE IF op \in Gated /\ ~g.P[p].en THEN Res(g, DISBLD, << >>)
  ELSE CASE op = "enable"  -> DoEnable(T, g, p)
         [] op = "disable" -> DoDisable(T, g, p)
         [] op = "maxpar"  -> DoMaxPar(T, g, p, a[1])
         [] op = "unsetmax" -> Res([g EXCEPT !.P[p].maxp = 0], SUCCESS, << >>)
         [] op = "lend"      -> DoLendMask(T, g, p, Cpus(T))
         [] op = "lend_cpu"  -> DoLendCpu(T, g, p, a[1])
         [] op = "lend_cpus" -> Res(g, NOPOL, << >>)
         [] op = "lend_mask" -> DoLendMask(T, g, p, a[1])
         [] op = "reclaim"      -> DoReclaimMask(T, g, p, g.P[p].mask)
         [] op = "reclaim_cpu"  -> DoReclaimCpu(T, g, p, a[1])
         [] op = "reclaim_cpus" -> DoReclaimCpus(T, g, p, a[1])
         [] op = "reclaim_mask" -> DoReclaimMask(T, g, p, a[1])
         [] op = "acquire_cpu"  -> DoAcquireCpu(T, g, p, a[1])
         [] op = "acquire_cpus" -> DoAcquireCpus(T, g, p, a[1])
         [] op = "acquire_mask" -> DoAcquireIn(T, g, p, 0, a[1], FALSE)
         [] op = "acquire_in"   -> DoAcquireIn(T, g, p, a[1], a[2], FALSE)
         [] op = "borrow"      -> DoBorrowIn(T, g, p, 0, Cpus(T), TRUE)
         [] op = "borrow_cpu"  -> DoBorrowCpu(T, g, p, a[1])
         [] op = "borrow_cpus" -> DoBorrowIn(T, g, p, a[1], Cpus(T), TRUE)
         [] op = "borrow_mask" -> DoBorrowIn(T, g, p, 0, a[1], FALSE)
         [] op = "borrow_in"   -> DoBorrowIn(T, g, p, a[1], a[2], FALSE)
         [] op = "return"      -> DoReturnAll(T, g, p)
         [] op = "return_cpu"  -> DoReturnCpu(T, g, p, a[1])
         [] op = "return_mask" -> DoReturnMask(T, g, p, a[1])
         [] op = "check"       -> DoCheck(T, g, p, a[1])
         [] op = "into"        -> DoInto(T, g, p, a[1])
         [] op = "outof"       -> DoOutOf(T, g, p, a[1])
=============================================================================
