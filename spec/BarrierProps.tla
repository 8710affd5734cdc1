---------------------------- MODULE BarrierProps ----------------------------
(* What barriers guarantee, as predicates on a step  b --(p, op, a)--> h, x. *)
(* Who takes part in a barrier is derived from who joined and left it.       *)
EXTENDS Barrier

Team(b, k) == {p \in DOMAIN b.P : b.P[p].def = k \/ k \in ToSet(b.P[p].list)}
InBar(b, k) == {p \in DOMAIN b.P : b.w[p].k = "bar" /\ b.w[p].h = k}
Crossed(b, p, op, x) == {f[1] : f \in {y \in ToSet(x.fin) : b.w[y[1]].k = "bar"}} \cup (IF op = "bar" /\ ~x.blk /\ x.r = SUCCESS THEN {p} ELSE {})
At(T, b, p, op, a, q) == IF q = p /\ op = "bar" THEN IF a[1] = 0 THEN b.P[p].def ELSE a[1] ELSE b.w[q].h

(* nobody goes on before all the team is there, and then everybody does *)
NotEarly(T, b, p, op, a, x) ==
  \A q \in Crossed(b, p, op, x) : LET k == At(T, b, p, op, a, q) IN
     k # 0 /\ Team(b, k) \subseteq (InBar(b, k) \cup IF op = "bar" /\ At(T, b, p, op, a, p) = k THEN {p} ELSE {})
NotStuck(T, h) == \A k \in 1..T.slots : InBar(h, k) # {} => ~(Team(h, k) \subseteq InBar(h, k))
AllTogether(T, b, h, p, op, a, x) ==
  \A q \in Crossed(b, p, op, x) : LET k == At(T, b, p, op, a, q) IN k # 0 => InBar(h, k) = {} /\ InBar(b, k) \subseteq Crossed(b, p, op, x)
Count(T, h) == \A k \in 1..T.slots : h.sl[k].parts = Cardinality(Team(h, k))
Times(T, b, h, p, op, a, x) ==
  \A k \in 1..T.slots : b.sl[k].parts > 0 /\ h.sl[k].parts > 0 /\ b.sl[k].nm = h.sl[k].nm =>
     h.sl[k].nt = b.sl[k].nt + (IF \E q \in Crossed(b, p, op, x) : At(T, b, p, op, a, q) = k THEN 1 ELSE 0)
Names(T, h) == \A k, j \in 1..T.slots : k # j /\ h.sl[k].parts > 0 /\ h.sl[j].parts > 0 => h.sl[k].nm # h.sl[j].nm
Answer(T, b, h, p, op, a, x) ==
  /\ op = "bar_reg" /\ x.v # 0 => p \in Team(h, x.v) /\ h.sl[x.v].nm = a[1]
  /\ op = "bar_att" /\ ~x.blk /\ x.r > 0 => LET k == IF a[1] = 0 THEN h.P[p].def ELSE a[1] IN k # 0 /\ p \in Team(h, k) /\ x.r = Cardinality(Team(h, k))
  /\ op = "bar_det" /\ x.r >= 0 => LET k == IF a[1] = 0 THEN b.P[p].def ELSE a[1] IN k # 0 /\ p \notin Team(h, k) /\ x.r = Cardinality(Team(h, k))
  /\ op = "fin" /\ x.r = SUCCESS => \A k \in 1..T.slots : p \notin Team(h, k)
(* a barrier only lends CPUs if it has been told to, and only of those that wait *)
Lends(T, b, h, p, op, a, x) ==
  op = "bar" =>
    LET k == At(T, b, p, op, a, p)
        own(s, q) == {c \in Cpus(T) : s.own[c] = q /\ s.gst[c] = q} IN
    /\ (k = 0 \/ ~b.sl[k].lewi) => h.g = b.g /\ x.cb = << >>
    /\ (k # 0 /\ b.sl[k].lewi /\ x.blk) => /\ \A c \in DOMAIN h.g.s.own : b.g.s.gst[c] = p /\ h.g.s.gst[c] # p => c \in a[2]
                                           /\ (T.lewi /\ ~T.keep /\ b.g.P[p].en) => \A c \in a[2] \cap Cpus(T) : h.g.s.gst[c] # p
    \* who leaves has its CPUs busy again, unless other processes still use them (they have been told to return them)
    /\ \A q \in Crossed(b, p, op, x) \ {p} : b.w[q].lent /\ T.lewi /\ b.g.P[q].en =>
          \A c \in b.w[q].got : b.g.s.own[c] = q => h.g.s.st[c] = "B"
    /\ \A q \in DOMAIN h.P : h.w[q].k = "bar" => h.w[q].lent = h.sl[h.w[q].h].lewi

BBroken(T, b, h, p, op, a, x) ==
  { z[1] : z \in { y \in {
     <<"B01.early",    NotEarly(T, b, p, op, a, x)>>,
     <<"B01.stuck",    NotStuck(T, h)>>,
     <<"B01.together", AllTogether(T, b, h, p, op, a, x)>>,
     <<"B01.count",    Count(T, h)>>,
     <<"B01.times",    Times(T, b, h, p, op, a, x)>>,
     <<"B01.names",    Names(T, h)>>,
     <<"B01.answer",   Answer(T, b, h, p, op, a, x)>>,
     <<"B02.lends",    Lends(T, b, h, p, op, a, x)>> } : ~y[2] } }
=============================================================================
