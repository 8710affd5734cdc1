----------------------------- MODULE MC_Amount -----------------------------
EXTENDS AmountProps
CONSTANTS NCPUS, NP, ASYNC, KEEP, GREEDY, OPS, OWNS, NS, MAXRQ
PIDS == 1..NP
T == [n |-> NCPUS, async |-> ASYNC, keep |-> KEEP, greedy |-> GREEDY]
VARIABLES g, bad
vars == <<g, bad>>
Args(op) == CASE op = "init" -> OWNS [] op \in {"lend_cpus", "acquire_cpus", "borrow_cpus", "maxpar"} -> NS [] OTHER -> {0}
Init == g = Am0(PIDS) /\ bad = {}
Next == /\ bad = {}
        /\ \E p \in PIDS, op \in OPS : \E n \in Args(op) : \E x \in AmDo(T, g, p, op, n) :
             LET v == AmBroken(T, g, x.g, p, op, n, x.r, x.cb)
             IN g' = x.g /\ bad' = IF v = {} THEN {} ELSE {<<v, p, op, n, x.r, x.cb>>}
Bounded == \A p \in PIDS : g.rq[p] <= MAXRQ /\ g.P[p].back <= MAXRQ
Good == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
