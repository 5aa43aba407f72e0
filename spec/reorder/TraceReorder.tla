---------------------------- MODULE TraceReorder ----------------------------
EXTENDS Reorder, TraceLib
VARIABLES l, seq, comps
vars == <<n, faces, l, seq, comps>>
Ev == Log[l]
TInit == l = 1 /\ n = 0 /\ faces = <<>> /\ seq = <<>> /\ comps = <<0>>
InCells(s) == \A i \in DOMAIN s : s[i] \in Cells
TNext == l <= LogLen /\
    CASE Ev.e = "new"   -> l' = l + 1 /\ n' = Ev.n /\ faces' = Ev.faces /\ seq' = <<>> /\ comps' = <<0>>
      [] Ev.e = "order" -> l' = l + 1 /\ UNCHANGED <<n, faces>> /\ seq' = Ev.seq /\ comps' = Ev.comps
                           /\ InCells(Ev.seq) /\ IsFlowOrder(Ev.seq, Ev.comps)
      [] Ev.e = "graph" -> l' = l + 1 /\ UNCHANGED <<n, faces>> /\ seq' = Ev.seq /\ comps' = Ev.comps
                           /\ InCells(Ev.seq) /\ IsFlowOrder(Ev.seq, Ev.comps)
                           /\ InCells(Ev.ja) /\ IsUpwindGraph(Ev.ia, Ev.ja)
      [] Ev.e = "solve" -> l' = l + 1 /\ UNCHANGED <<n, faces>> /\ seq' = Ev.seq /\ comps' = Ev.comps
                           /\ InCells(Ev.seq) /\ IsFlowOrder(Ev.seq, Ev.comps)
                           /\ IsSchedule(Ev.calls, Ev.seq, Ev.comps)
                           /\ \A k \in DOMAIN Ev.calls : Ev.single[k] = (Len(Ev.calls[k]) = 1)
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
