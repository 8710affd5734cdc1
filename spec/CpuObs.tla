------------------------------- MODULE CpuObs -------------------------------
(* What an execution shows of the CPU table, and how it compares with the    *)
(* specification's one.  o is the recorded state (CPUs are numbered from 1). *)
EXTENDS CpuInfo

CBag(q) == [x \in ToSet(q) |-> Cardinality({j \in 1..Len(q) : q[j] = x})]
CLabel(s, c) == CASE s.st[c] = "D" -> "off"
                  [] s.st[c] = "B" /\ s.own[c] = s.gst[c] -> "busy"
                  [] s.st[c] = "B" -> "recl"
                  [] s.gst[c] = NOBODY -> "idle"
                  [] OTHER -> "lent"
CpuDiff(T, s, o) ==
  { f \in {"own", "gst", "st", "rq", "grq", "free", "occ"} :
      ~ CASE f = "own" -> o.full => \A c \in Cpus(T) : s.own[c] = o.own[c+1]
          [] f = "gst" -> o.full => \A c \in Cpus(T) : s.gst[c] = o.gst[c+1]
          [] f = "st"  -> o.full => \A c \in Cpus(T) : CLabel(s, c) = o.st[c+1]
          [] f = "rq"  -> o.full => \A c \in Cpus(T) : s.rq[c] = o.rq[c+1]
          [] f = "grq" -> o.full => /\ Len(s.grq) = Len(o.grq)
                                    /\ \A k \in 1..Len(s.grq) : /\ s.grq[k][1] = o.grq[k][1]
                                                                /\ s.grq[k][2] = o.grq[k][2]
                                                                /\ s.grq[k][3] = ToSet(o.grq[k][3])
          [] f = "free" -> o.up => s.free = ToSet(o.free)
          [] f = "occ"  -> o.up => s.occ = ToSet(o.occ) }
CStOf(l) == IF l = "off" THEN "D" ELSE IF l \in {"idle", "lent"} THEN "L" ELSE "B"
CpuSeen(T, s, o) ==
  IF ~o.up THEN s
  ELSE IF ~o.full THEN [s EXCEPT !.free = ToSet(o.free), !.occ = ToSet(o.occ)]
  ELSE [s EXCEPT !.own  = [c \in Cpus(T) |-> o.own[c+1]],
                 !.gst  = [c \in Cpus(T) |-> o.gst[c+1]],
                 !.st   = [c \in Cpus(T) |-> CStOf(o.st[c+1])],
                 !.rq   = [c \in Cpus(T) |-> o.rq[c+1]],
                 !.grq  = [k \in 1..Len(o.grq) |-> <<o.grq[k][1], o.grq[k][2], ToSet(o.grq[k][3])>>],
                 !.free = ToSet(o.free), !.occ = ToSet(o.occ)]
=============================================================================
