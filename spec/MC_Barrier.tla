----------------------------- MODULE MC_Barrier -----------------------------
EXTENDS BarrierProps
CONSTANTS NCPUS, NP, SLOTS, ASYNC, LEWI, LB, SEL, NAMES, OPS, MAXT

PIDS == 1..NP
T == [ n |-> NCPUS, smt |-> FALSE, core |-> [x \in 0..(NCPUS-1) |-> {x}], node |-> [x \in 0..(NCPUS-1) |-> 0..(NCPUS-1)],
       async |-> ASYNC, pub |-> FALSE, resp |-> TRUE, aff |-> "mask", keep |-> FALSE, maxp |-> 0, lewi |-> LEWI,
       slots |-> SLOTS, bar |-> PIDS, lb |-> LB, sel |-> SEL, bid |-> [p \in PIDS |-> 0] ]
Share == NCPUS \div NP
MaskOf(p) == ((p-1) * Share) .. (p * Share - 1)
VARIABLES b, bad
vars == <<b, bad>>
Handles == 0..SLOTS
Args(p, op) ==
  CASE op = "init" -> {<<MaskOf(p)>>}
    [] op = "bar" -> {<<h, {Min(MaskOf(p))}>> : h \in {0} \cup (Handles \ {Slot(T, b, "default")})}
    [] op \in {"bar_att", "bar_det"} -> {<<h>> : h \in {0} \cup (Handles \ {Slot(T, b, "default")})}
    [] op = "bar_reg" -> {<<n, f>> : n \in NAMES, f \in 0..2}
    [] op \in {"lend_cpu", "borrow_cpu", "reclaim_cpu", "acquire_cpu", "return_cpu"} -> {<<c>> : c \in Cpus(T)}
    [] OTHER -> {<<0>>}
(* joining or leaving a barrier in which somebody waits is an error of the program (it aborts) *)
Touches(p, op, a) ==
  CASE op = "init" -> {Slot(T, b, "default")}
    [] op = "fin" -> {b.P[p].def} \cup ToSet(b.P[p].list)
    [] op = "bar_det" -> {IF a[1] = 0 THEN b.P[p].def ELSE a[1]}
    [] op = "bar_att" -> IF a[1] = 0 THEN {Slot(T, b, "default")} ELSE {}
    [] op = "bar_reg" -> {Slot(T, b, a[1])}
    [] OTHER -> {}
Init == b = B0(T, PIDS) /\ bad = {}
Next == /\ bad = {}
        /\ \E p \in PIDS, op \in OPS :
             /\ ~BBusy(b, p)
             /\ (op # "init" => b.P[p].ini)
             \* programs do not know their default barrier as a named one
             /\ \E a \in Args(p, op) :
                  /\ \A k \in Touches(p, op, a) \ {0} : Waiting(b, k) = << >>
                  /\ LET x == BDo(T, b, p, op, a)  v == BBroken(T, b, x.b, p, op, a, x)
                     IN b' = x.b /\ bad' = IF v = {} THEN {} ELSE {<<v, p, op, a, x.r, x.cb, x.fin>>}
Bounded == (\A k \in 1..SLOTS : b.sl[k].nt <= MAXT) /\ (\A c \in Cpus(T) : Len(b.g.s.rq[c]) <= 1)
Good == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
