---------------------------- MODULE AmountProps ----------------------------
(* What must hold when processes exchange numbers of CPUs (module Amount). *)
EXTENDS Amount

Total(g, f(_)) == FoldSet(LAMBDA p, n : n + f(p), 0, Procs(g))
Conserved(g) == Total(g, LAMBDA p : g.P[p].cur) + g.idle = Total(g, LAMBDA p : g.P[p].def)
Ran(T, g, p, op) == g.P[p].ph = "init" /\ g.P[p].en
Back == {"reclaim", "outof", "disable"}
(* calls that can take CPUs from others *)
Taking == Back \cup {"acquire_cpus", "enable", "fin"}
Final(cb, q) == LET s == SelectSeq(cb, LAMBDA t : t[1] = q) IN s[Len(s)][3]
Heard(cb, q) == \E i \in 1..Len(cb) : cb[i][1] = q

AmBroken(T, g, h, p, op, n, r, cb) ==
  LET O == DOMAIN g.P \ {p} IN
  { y[1] : y \in { z \in {
    <<"N01.conserved", Conserved(h)>>,
    <<"N01.nodebt",    T.async => h.idle >= 0 /\ \A q \in Procs(h) : h.P[q].cur >= 0>>,
    <<"N01.debt",      ~T.async /\ h.idle < 0 => -h.idle <= Total(h, LAMBDA q : Mx(0, h.P[q].cur - h.P[q].def))>>,
    <<"N01.own",       \A q \in O : h.P[q].def = g.P[q].def /\ h.P[q].ph = g.P[q].ph /\ h.P[q].en = g.P[q].en>>,
    <<"N02.back",      op \in Back /\ Ran(T, g, p, op) => h.P[p].cur >= h.P[p].def>>,
    <<"N02.exact",     op = "disable" /\ Ran(T, g, p, op) => h.P[p].cur = h.P[p].def /\ h.rq[p] = 0>>,
    <<"N02.excess",    \A q \in O : h.P[q].cur < g.P[q].cur =>
                          T.async /\ h.P[q].cur >= g.P[q].def /\ op \in Taking /\ g.P[p].cur < g.P[p].def /\ g.idle < g.P[p].def - g.P[p].cur>>,
    <<"N02.again",     \A q \in O : h.P[q].cur < g.P[q].cur => h.rq[q] = g.rq[q] + g.P[q].cur - h.P[q].cur>>,
    <<"N02.even",      \A q, s \in O : LET d(x) == g.P[x].cur - h.P[x].cur IN d(s) >= 0 /\ d(q) > d(s) + 1 => h.P[s].cur <= h.P[s].def>>,
    <<"N02.gone",      op = "fin" => h.rq[p] = 0>>,
    <<"N02.leave",     ~T.async /\ op \in {"borrow", "borrow_cpus"} /\ Ran(T, g, p, op) /\ g.idle < 0 /\ g.P[p].cur > g.P[p].def =>
                          h.idle = 0 \/ h.P[p].cur = h.P[p].def>>,
    <<"N03.asked",     \A q \in O : h.P[q].cur > g.P[q].cur =>
                          T.async /\ g.P[q].en /\ h.P[q].cur - g.P[q].cur = g.rq[q] - h.rq[q]>>,
    <<"N03.idle",      T.async /\ h.idle > 0 => \A q \in DOMAIN h.rq : h.rq[q] = 0>>,
    <<"N03.even",      \A q, s \in O : LET d(x) == h.P[x].cur - g.P[x].cur IN d(s) >= 0 /\ d(q) > d(s) + 1 => h.rq[s] = 0>>,
    <<"N03.amount",    op \in {"borrow_cpus", "acquire_cpus"} /\ n > 0 => h.P[p].cur - g.P[p].cur <= n + g.P[p].back>>,
    <<"N03.possible",  op \in {"borrow", "borrow_cpus"} /\ Ran(T, g, p, op) /\ g.idle > 0 /\ g.P[p].maxp = 0 =>
                          h.P[p].cur = g.P[p].cur + Mn(g.idle, IF op = "borrow" THEN LOTS ELSE Mx(0, n))>>,
    <<"N03.limit",     op \in {"borrow", "borrow_cpus"} /\ g.P[p].maxp > 0 => h.P[p].cur <= Mx(g.P[p].cur, g.P[p].maxp)>>,
    <<"N03.lower",     op = "maxpar" /\ n > 0 /\ Ran(T, g, p, op) /\ ~T.async => h.P[p].cur <= n>>,
    <<"N04.told",      \A q \in Procs(h) : g.P[q].ph = "init" /\ h.P[q].cur # g.P[q].cur =>
                          Heard(cb, q) /\ Final(cb, q) = Clamp(T, h.P[q].cur)>>,
    <<"N04.quiet",     \A q \in DOMAIN g.P : Heard(cb, q) => h.P[q].ph = "init" /\ Final(cb, q) = Clamp(T, h.P[q].cur)>>,
    <<"N04.honest",    r \in {NOUPDT, UNKNOWN, NOINIT, INITED, DISBLD, PERM, NOPOL} => h = g /\ cb = << >>>>,
    <<"N04.success",   r = SUCCESS /\ op \in {"borrow", "borrow_cpus"} => h.P[p].cur # g.P[p].cur>>,
    <<"N04.noted",     r = NOTED <=> (op = "acquire_cpus" /\ h.rq[p] > 0 /\ Ran(T, g, p, op) /\ n > 0 /\ T.async)>> } : ~z[2] } }
=============================================================================
