------------------------------ MODULE MC_Talp ------------------------------
EXTENDS TalpProps
CONSTANTS NCPUS, KSTR, THREADS, OPS, NAMES, MAXNOW, MAXREG, MAXC, TEAMS, PKS, DEPTH, LB, EXCL, MULT

KINDS == [i \in 1..Len(KSTR) |-> SubSeq(KSTR, i, i)]
PIDS == 1..Len(KSTR)
(* kinds of processes: T measured, E external profiler, M summary of the node, O OpenMP, t measured and out of barriers, X never initialized, N not measured *)
T == [ n |-> NCPUS, mult |-> MULT, lb |-> LB, cp |-> [p \in PIDS |-> NCPUS \div Len(KINDS)],
       o |-> [p \in PIDS |-> LET k == KINDS[p] IN [talp |-> k \in {"T", "E", "M", "O", "t"}, ext |-> k = "E", node |-> k = "M", bar |-> k \notin {"t", "X"},
                sel |-> [all |-> EXCL = {}, inc |-> EXCL = {}, names |-> EXCL]]] ]
VARIABLES h, bad, c      \* c[p]: what each thread is doing: << <<kind, region>>, ... >>; sync: threads in a blocking call; wait: threads waiting in a parallel region
vars == <<h, bad, c>>
TS == 0..(THREADS-1)
C0 == [stk |-> [t \in TS |-> << >>], live |-> {0}, dead |-> {}, sync |-> {}, wait |-> {}, par |-> [k \in {} |-> 0]]
Top(p, t) == IF c[p].stk[t] = << >> THEN <<"", 0>> ELSE Last(c[p].stk[t])
Hnd(p) == {0} \cup 2..Len(h.P[p].regs)
Args(p, t, op) ==
  CASE op = "tick" -> {<<1>>, <<2>>}
    [] op \in {"reg", "query"} -> {<<n>> : n \in NAMES}
    [] op = "ntimes" -> {<<n, m>> : n \in NAMES, m \in {1, 8}}
    [] op = "rstop" -> {<<k>> : k \in Hnd(p) \cup {-1}}
    [] op \in {"rstart", "rreset"} -> {<<k>> : k \in Hnd(p)}
    [] op = "collect" -> {<<k>> : k \in Hnd(p)}
    [] op \in {"sin", "sout"} -> {<<0>>, <<1>>}
    [] op = "times" -> {<<q>> : q \in PIDS}
    [] op = "observer" -> {<<0>>, <<1>>}
    [] op = "pb" -> {<<k, n>> : k \in PKS, n \in TEAMS}
    [] op = "imp" -> IF Top(p, t)[1] = "?" THEN {<<Top(p, t)[2], 0, c[p].par[Top(p, t)[2]].n>>}
                     ELSE {<<k, Min({i \in 1..8 : i \notin DOMAIN c[p].par[k].team}), c[p].par[k].n>> : k \in DOMAIN c[p].par}
    [] op \in {"ibar", "iend", "pe"} -> {<<Top(p, t)[2], 1>>}
    [] op \in {"si", "so"} -> {<<IF Top(p, t)[1] = "" THEN 63 ELSE Top(p, t)[2], 0>>}
    [] OTHER -> {<<0>>}
RegionOps == {"rstart", "rstop", "rreset", "rupd", "collect", "fin", "omp_stop", "mpi_init", "mpi_fin", "observer"}
Quiet(p) == c[p].sync = {} /\ c[p].wait = {} /\ DOMAIN c[p].par = {}
(* what a program may do *)
May(p, t, op, a) ==
  LET C == c[p]  top == Top(p, t)  up == h.P[p].up  k == KINDS[p] IN
  /\ ~Busy(h, p)
  /\ CASE op = "tick" -> p = 1 /\ t = 0
       [] op = "init" -> t = 0 /\ k \notin {"O", "X"} /\ ~up /\ \A q \in PIDS : ~Busy(h, q)
       [] op = "omp_start" -> t = 0 /\ k = "O" /\ ~up
       [] op \in {"times", "ntimes", "query", "tatt", "tdet"} -> t = 0 /\ (k = "X" \/ up) /\ (op = "tdet" => h.P[p].refs > (IF h.P[p].shm = "no" THEN 0 ELSE 1)) /\ (op = "tatt" => h.P[p].refs < 2)
       [] op = "rstart" \/ op = "rstop" -> up /\ k # "X" /\ Quiet(p) /\ (k = "O" => t = 0)
       [] op \in {"sin", "sout"} -> up /\ (op = "sin" <=> t \notin C.sync) /\ (k = "O" /\ t # 0 => t \in C.live /\ top[1] = "r") /\ (C.stk[t] # << >> => top[1] = "r") /\ t \notin C.wait
       [] op \in RegionOps -> /\ up /\ t = 0 /\ Quiet(p) /\ k # "X"
                              /\ op = "collect" => \A q \in PIDS : Quiet(q) /\ ~h.P[q].obs
                              /\ op = "fin" => (\A q \in PIDS : ~Busy(h, q)) /\ ~h.P[p].obs
                              /\ op \in {"mpi_init", "mpi_fin"} => ~h.P[p].obs /\ (op = "mpi_init" <=> ~h.P[p].mpi)
       [] op = "reg" -> up /\ t = 0
       [] op \notin OmpOps -> up /\ t = 0
       [] OTHER -> /\ up /\ k = "O" /\ t \notin C.sync
                   /\ CASE op = "tb" -> t \notin C.live \cup C.dead /\ t # 0
                        [] op = "te" -> t \in C.live /\ t # 0 /\ C.stk[t] = << >>
                        [] OTHER ->
                           /\ t \in C.live
                           /\ (op \in {"so", "tsw"} /\ t \in C.wait) \/ (t \notin C.wait /\ op # "so")
                           /\ CASE op = "pb" -> (t = 0 \/ top[1] = "r") /\ top[1] \in {"", "r"} /\ Len(C.stk[t]) < DEPTH /\ a[1] \notin DOMAIN C.par
                                [] op = "imp" -> top[1] = "?" \/ (C.stk[t] = << >> /\ t # 0 /\ a[2] < a[3] /\ ~C.par[a[1]].done)
                                [] op = "ibar" -> top[1] = "r"
                                [] op = "iend" -> top[1] = "b" /\ Cardinality(C.par[top[2]].bar) = C.par[top[2]].n
                                [] op = "pe" -> top[1] = "e" /\ ~C.par[top[2]].done /\ C.par[top[2]].own = t
                                [] op \in {"si", "tc"} -> top[1] = "r" \/ (t = 0 /\ top[1] = "")
                                [] OTHER -> top[1] = "r"
Pop(s) == IF s = << >> THEN s ELSE Front(s)
Clean(C) == [C EXCEPT !.par = [k \in {j \in DOMAIN C.par : ~(C.par[j].done /\ Cardinality(C.par[j].left) = C.par[j].n)} |-> C.par[k]]]
Note(p, t, op, a) ==
  LET C == c[p]  k == a[1] IN
  CASE op \in {"fin", "omp_stop"} -> C0
    [] op = "sin" -> [C EXCEPT !.sync = @ \cup {t}]
    [] op = "sout" -> [C EXCEPT !.sync = @ \ {t}]
    [] op = "tb" -> [C EXCEPT !.live = @ \cup {t}]
    [] op = "te" -> [C EXCEPT !.live = @ \ {t}, !.dead = @ \cup {t}]
    [] op = "pb" -> [C EXCEPT !.par = @ @@ (k :> [n |-> a[2], own |-> t, team |-> << >> , bar |-> {}, left |-> {}, done |-> FALSE]), !.stk[t] = Append(@, <<"?", k>>)]
    [] op = "imp" -> [C EXCEPT !.stk[t] = Append(IF a[2] = 0 THEN Front(@) ELSE @, <<"r", k>>), !.par[k].team = IF a[2] = 0 THEN @ ELSE Append(@, t)]
    [] op = "ibar" -> [C EXCEPT !.stk[t] = Append(Front(@), <<"b", k>>), !.par[k].bar = @ \cup {t}]
    [] op = "iend" -> Clean([C EXCEPT !.stk[t] = IF t = C.par[k].own THEN Append(Front(@), <<"e", k>>) ELSE Front(@), !.par[k].left = @ \cup {t}])
    [] op = "pe" -> Clean([C EXCEPT !.stk[t] = Front(@), !.par[k].done = TRUE])
    [] op \in {"tdone"} -> [C EXCEPT !.wait = @ \cup {t}]
    [] op = "si" -> IF C.stk[t] = << >> THEN C ELSE [C EXCEPT !.wait = @ \cup {t}]
    [] op \in {"so", "tsw"} -> [C EXCEPT !.wait = @ \ {t}]
    [] OTHER -> C
Init == h = H0(PIDS) /\ bad = {} /\ c = [p \in PIDS |-> C0]
Next == /\ bad = {}
        /\ \E p \in PIDS, t \in TS, op \in OPS :
             \E a \in Args(p, t, op) :
               /\ May(p, t, op, a)
               /\ LET x == TDo(T, h, p, t, op, a)  v == TBroken(T, h, x.h, p, t, op, a, x)
                  IN /\ h' = x.h /\ c' = [c EXCEPT ![p] = Note(p, t, op, a)]
                     /\ bad' = IF v = {} THEN {} ELSE {<<v, p, t, op, a, x.r, x.x, x.fin>>}
Bounded == /\ h.now <= MAXNOW
           /\ \A p \in PIDS : LET P == h.P[p] IN
                /\ Len(P.regs) <= MAXREG /\ P.anon <= 2
                /\ \A k \in DOMAIN P.regs : P.regs[k].meas + P.regs[k].res <= MAXC
                /\ \A i \in DOMAIN P.smp : P.smp[i].cm + P.smp[i].cp + P.smp[i].ct <= MAXC
                /\ \A k \in DOMAIN P.regs : P.regs[k].cm + P.regs[k].cp + P.regs[k].ct <= MAXC
Good == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
