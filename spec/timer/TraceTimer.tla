----------------------------- MODULE TraceTimer -----------------------------
EXTENDS Timer, TraceLib
VARIABLE l
vars == <<steps, pos, total, start, l>>
Ev == Log[l]
S == \E o \in {Ev.o} : Shows(o)'
TInit == l = 1 /\ steps = <<>> /\ pos = -1 /\ total = 0 /\ start = -1
TNext == l <= LogLen /\ l' = l + 1 /\
    CASE Ev.e = "new"     -> steps' = <<>> /\ pos' = 0 /\ total' = 0 /\ start' = -1
      [] Ev.e = "init"    -> InitSteps(Ev.steps, Ev.start, Ev.fresh)
                             /\ Ev.o.n = Len(steps') /\ Ev.o.total = total' /\ (Ev.fresh => S)
      [] Ev.e = "set"     -> Set(Ev.k, Ev.ok) /\ S
      [] Ev.e = "advance" -> Advance(Ev.ok) /\ S
      [] Ev.e = "total"   -> SetTotal(Ev.t) /\ S
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
