------------------------------ MODULE MC_Drom ------------------------------
EXTENDS DromProps
CONSTANTS NCPUS, NP, EXT, ASYNC, LEWI, RETST, OPS, MASKS, FLAGS, NW, NA, QLEN

PIDS == 1..NP
T == [ n |-> NCPUS, smt |-> FALSE, core |-> [x \in 0..(NCPUS-1) |-> {x}], node |-> [x \in 0..(NCPUS-1) |-> 0..(NCPUS-1)],
       async |-> ASYNC, pub |-> FALSE, resp |-> TRUE, aff |-> "mask", keep |-> FALSE, maxp |-> 0, lewi |-> LEWI,
       par |-> [x \in {0} |-> 0], drom |-> TRUE, retst |-> RETST ]
(* EXT: numbers of processes that are registered by others before they start *)
Share == NCPUS \div NP
MaskOf(p) == ((p-1) * Share) .. (p * Share - 1)

VARIABLES d, K, bad
vars == <<d, K, bad>>
All == PIDS \cup EXT

Args(p, op) ==
  CASE op = "init" -> {<<m, 0>> : m \in MASKS} \cup {<<m, q>> : m \in MASKS \cup {{}}, q \in EXT}
                      \* a process registered beforehand starts at least with its reservation (see DESIGN.md)
                      \cup {<<m, p>> : m \in {y \in MASKS \cup {{}} : y = {} \/ \A i \in Slots(T, d.q) : d.q.sl[i].pid = p => Eff(d.q.sl[i]) \subseteq y}}
    [] op = "preinit" -> {<<m>> : m \in MASKS}
    [] op = "drom_preinit" -> {<<q, m, f>> : q \in EXT \cup {q \in PIDS : ~d.L[q].ini /\ ~d.L[q].dead}, m \in MASKS, f \in {{}, {"steal"}, {"steal", "sync"}, {"steal", "ret"}}}
    [] op = "drom_post" -> {<<q, f>> : q \in EXT \cup {q \in PIDS : ~d.L[q].ini}, f \in {{}, {"ret"}}}
    [] op = "drom_recover" -> {<<q>> : q \in All}
    [] op = "drom_get" -> {<<q, f>> : q \in PIDS \cup {0}, f \in {{}, {"sync"}}}
    \* the masks of the processes that have not started are left alone (see DESIGN.md)
    [] op = "drom_set" -> {<<q, m, f>> : q \in {x \in PIDS : d.L[x].ini \/ d.L[x].dead} \cup {0}, m \in MASKS, f \in FLAGS}
    [] op \in {"lend_cpu", "borrow_cpu", "reclaim_cpu", "acquire_cpu", "return_cpu"} -> {<<c>> : c \in Cpus(T)}
    [] OTHER -> {<<0>>}

Step(p, op, a) ==
  LET x == DDo(T, d, p, op, a)
      L == Told(T, d, K, x.d, p, op, a, x)
      b == DBroken(T, d, K, x.d, L, p, op, a, x)
  IN d' = x.d /\ K' = L /\ bad' = IF b = {} THEN {} ELSE {<<b, p, op, a, x.r, x.cb, x.v, x.fin>>}

Init == /\ d = FoldLeft(LAMBDA y, p : DDo(T, y, p, "init", <<MaskOf(p), 0>>).d, D0(T, PIDS), [i \in PIDS |-> i])
        /\ K = [p \in PIDS |-> MaskOf(p)] /\ bad = {}
Lewi == {"lend_cpu", "borrow_cpu", "reclaim_cpu", "acquire_cpu", "return_cpu", "return", "reclaim", "borrow", "disable", "enable"}
Next == /\ bad = {}
        /\ \E p \in PIDS, op \in OPS :
             /\ ~Busy(d, p) /\ ~d.L[p].dead
             /\ op = "die" => (d.L[p].ini \/ d.L[p].ap > 0) /\ ~(d.L[p].pre /\ ~d.L[p].ini)
             /\ op = "init" => ~d.L[p].ini
             /\ op = "preinit" => ~d.L[p].ini /\ d.L[p].ap = 0
             /\ op = "drom_attach" => d.L[p].ap + (IF d.L[p].pre /\ ~d.L[p].ini THEN 1 ELSE 0) < (IF d.L[p].ini THEN 2 ELSE 1)
             /\ op = "drom_detach" => d.L[p].ap > (IF d.L[p].ini THEN 1 ELSE 0)
             /\ op \in Lewi \cup {"poll", "poll_upd"} => d.L[p].ini
             /\ op = "tick" => p = 1 /\ \E k \in 1..Len(d.w) : ~d.w[k].late
             /\ \E a \in Args(p, op) :
                  \* nobody starts before the call that prepares its registration returns
                  /\ op \in {"init", "preinit", "drom_preinit"} => \A k \in 1..Len(d.w) : d.w[k].k = "psteal" => d.w[k].pid \notin CASE op = "init" -> {p, a[2]} [] op = "preinit" -> {p} [] OTHER -> {a[1]}
                  /\ Step(p, op, a)
Bounded == Len(d.w) <= NW /\ (\A c \in Cpus(T) : Len(d.g.s.rq[c]) <= QLEN)
Good == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
