--------------------------- MODULE TracePartition ---------------------------
EXTENDS Partition, TraceLib
VARIABLE l
vars == <<p, l>>
Ev == Log[l]
TInit == l = 1 /\ p = <<0>>
Step(a) == l' = l + 1 /\ p' = Ev.p /\ a
NonNeg(s) == \A i \in DOMAIN s : s[i] >= 0
TNext == l <= LogLen /\
    CASE Ev.e = "new"      -> l' = l + 1 /\ p' = Ev.p
      [] Ev.e = "unif"     -> Step(NonNeg(Ev.p) /\ Ev.ret = Len(Ev.idx) /\ Unif(Ev.fine, Ev.coarse, Ev.idx))
      [] Ev.e = "compress" -> Step(NonNeg(Ev.p) /\ Compress(Ev.ret))
      [] Ev.e = "invert"   -> Step(Invert(Ev.pi, Ev.inv))
      [] Ev.e = "local"    -> Step(LocalIdx(Ev.pi, Ev.inv, Ev.loc))
      [] Ev.e = "split"    -> Step(NonNeg(Ev.p) /\ SplitOK(Ev.neigh, Ev.ret, Ev.p))
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
