----------------------------- MODULE TraceTables -----------------------------
EXTENDS Tables, TraceLib
VARIABLE l
vars == <<tabs, grid, l>>
Ev == Log[l]
Ids == 1..4
TInit == l = 1 /\ tabs = [i \in Ids |-> None] /\ grid = 0
\* after every call the whole of every live table is logged
Shown == \A i \in Ids : tabs'[i].kind = "none" \/ tabs'[i].rows = Ev.tabs[i]
TNext == l <= LogLen /\ l' = l + 1 /\
    CASE Ev.e = "new"      -> tabs' = [i \in Ids |-> None] /\ Same
      [] Ev.e = "grid"     -> grid' = Ev.grid /\ UNCHANGED tabs
      [] Ev.e = "create"   -> Create(Ev.id, Ev.kind, Ev.np) /\ Shown
      [] Ev.e = "append"   -> AppendRow(Ev.id, Ev.np, Ev.row, Ev.ok) /\ Shown
      [] Ev.e = "clear"    -> Clear(Ev.id) /\ Shown
      [] Ev.e = "destroy"  -> Destroy(Ev.id) /\ Shown
      [] Ev.e = "pside"    -> PressureSide(Ev.id, Ev.side, Ev.v, Ev.tabs[Ev.id]) /\ Shown
      [] Ev.e = "fside"    -> FluxSide(Ev.id, Ev.side, Ev.v, Ev.tabs[Ev.id]) /\ Shown
      [] Ev.e = "refused"  -> Ev.np <= 0 /\ Ev.null /\ UNCHANGED <<tabs, grid>>
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
