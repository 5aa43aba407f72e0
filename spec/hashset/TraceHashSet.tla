---------------------------- MODULE TraceHashSet ----------------------------
EXTENDS HashSet, TraceLib
VARIABLE l
vars == <<S, tab, l>>
Ev == Log[l]
TInit == l = 1 /\ S = {} /\ tab = <<Free>>
TNext == l <= LogLen /\
    CASE Ev.e = "new"    -> l' = l + 1 /\ Allocate(Ev.m, Ev.t)
      [] Ev.e = "insert" -> l' = l + 1 /\ Insert(Ev.k, Ev.ret, Ev.t)
      [] Ev.e = "count"  -> l' = l + 1 /\ UNCHANGED <<S, tab>> /\ Count(Ev.n)
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
