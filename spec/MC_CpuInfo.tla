----------------------------- MODULE MC_CpuInfo -----------------------------
(* Exhaustive exploration of CpuInfo: every process may perform any          *)
(* operation at any time.  A .cfg fixes the node and the mode.               *)
EXTENDS CpuInfoProps

CONSTANTS NCPUS, PER, PERN, NP, ASYNC, PUB, RESP, AFF, KEEP, MAXP, OPS, NARGS, MASKS, QLEN, DOWN

PIDS == 1..NP
T == [ n |-> NCPUS, smt |-> PER > 1,
       core |-> [x \in 0..(NCPUS-1) |-> {y \in 0..(NCPUS-1) : y \div PER = x \div PER}],
       node |-> [x \in 0..(NCPUS-1) |-> {y \in 0..(NCPUS-1) : y \div PERN = x \div PERN}],
       async |-> ASYNC, pub |-> PUB, resp |-> RESP, aff |-> AFF, keep |-> KEEP, maxp |-> MAXP, lewi |-> TRUE ]
(* process p starts with the p-th share of the node *)
Share == NCPUS \div NP
MaskOf(p) == ((p-1) * Share) .. (p * Share - 1)

VARIABLES g, V, blk, bad
vars == <<g, V, blk, bad>>

CpuOps == {"lend_cpu", "reclaim_cpu", "acquire_cpu", "borrow_cpu", "return_cpu", "check"}
NumOps == {"reclaim_cpus", "acquire_cpus", "borrow_cpus", "maxpar"}
MaskOps == {"lend_mask", "reclaim_mask", "acquire_mask", "borrow_mask", "return_mask"}
Args(p, op) ==
  CASE op \in CpuOps -> {<<c>> : c \in Cpus(T)}
    [] op \in NumOps -> {<<n>> : n \in NARGS}
    [] op \in MaskOps -> {<<m>> : m \in MASKS}
    [] op \in {"acquire_in", "borrow_in"} -> {<<n, m>> : n \in NARGS \ {0}, m \in MASKS}
    [] op = "init" -> {<<MaskOf(p)>>}
    [] op = "into" -> IF blk[p] = {} THEN {<<m>> : m \in {UNION {T.core[c] : c \in x} : x \in {y \in MASKS : y \subseteq V[p] /\ y # {}}}} ELSE {}
    [] op = "outof" -> IF blk[p] # {} THEN {<<blk[p]>>} ELSE {}
    [] OTHER -> {<<0>>}

(* the properties are stated for processes that are running *)
Step(p, op, a) ==
  LET x == Do(T, g, p, op, a)
      W == ViewStep(T, g, V, x.g, p, op, a, x.r, x.cb)
      b == Broken(T, g, V, x.g, W, p, op, a, x.r, x.cb)
  IN /\ g' = x.g /\ V' = W
     /\ blk' = [blk EXCEPT ![p] = IF op = "into" THEN a[1] ELSE IF op \in {"outof", "fin"} THEN {} ELSE @]
     /\ bad' = IF b = {} THEN {} ELSE {<<b, p, op, a, x.r, x.cb>>}

Init == /\ g = [s |-> FoldLeft(LAMBDA y, p : DoInit(T, y, p, MaskOf(p)).g, Node0(T, PIDS), [i \in PIDS |-> i]).s,
                P |-> FoldLeft(LAMBDA y, p : DoInit(T, y, p, MaskOf(p)).g, Node0(T, PIDS), [i \in PIDS |-> i]).P]
        /\ V = [p \in PIDS |-> MaskOf(p)]
        /\ blk = [p \in PIDS |-> {}] /\ bad = {}
Next == /\ bad = {}
        /\ \E p \in PIDS : \E op \in OPS :
             /\ (op \in {"init"}) => (DOWN /\ g.P[p].ph # "init")
             /\ (op \notin {"init"}) => g.P[p].ph = "init"
             /\ (op = "fin") => DOWN
             /\ (blk[p] # {} => op = "outof")                 \* a process in a blocking call does nothing else
             /\ \E a \in Args(p, op) : Step(p, op, a)
Bounded == /\ \A c \in Cpus(T) : Len(g.s.rq[c]) <= QLEN
           /\ Len(g.s.grq) <= QLEN
           /\ \A i \in 1..Len(g.s.grq) : g.s.grq[i][2] <= QLEN
Good == bad = {}
Spec == Init /\ [][Next]_vars

(* liveness (polling): a reclaimed CPU comes back if its guest keeps asking  *)
(* whether it has to return CPUs                                             *)
Returns(p) == /\ g.P[p].ph = "init" /\ blk[p] = {} /\ Step(p, "return", <<0>>)
Comes(p)   == blk[p] # {} /\ Step(p, "outof", <<blk[p]>>)
FairSpec == Spec /\ \A p \in PIDS : SF_vars(Returns(p)) /\ WF_vars(Comes(p))
Reclaimed(c) == g.s.st[c] = "B" /\ g.s.gst[c] # g.s.own[c] /\ g.s.own[c] # NOBODY
ComesBack == \A c \in Cpus(T) : Reclaimed(c) ~> ~Reclaimed(c)
=============================================================================
