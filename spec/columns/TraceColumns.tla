---------------------------- MODULE TraceColumns ----------------------------
EXTENDS Columns, TraceLib
VARIABLE l
vars == <<pos, adj, l>>
Ev == Log[l]
TInit == l = 1 /\ pos = <<>> /\ adj = {}
TNext == l <= LogLen /\
    CASE Ev.e = "new" -> l' = l + 1 /\ pos' = Ev.pos
                         /\ adj' = {<<f[1], f[2]>> : f \in {Ev.faces[i] : i \in DOMAIN Ev.faces}} \cup {<<f[2], f[1]>> : f \in {Ev.faces[i] : i \in DOMAIN Ev.faces}}
      [] Ev.e = "columns" -> l' = l + 1 /\ UNCHANGED <<pos, adj>>
                             /\ (\A q \in DOMAIN Ev.cols : \A i \in DOMAIN Ev.cols[q] : Ev.cols[q][i] \in Cells)
                             /\ IsColumns(Ev.cols)
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
