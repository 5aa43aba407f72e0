---------------------------- MODULE TraceCoarse ----------------------------
EXTENDS Coarse, TraceLib
VARIABLE l
vars == <<part, neigh, done, faces, l>>
Ev == Log[l]
TInit == l = 1 /\ part = <<>> /\ neigh = <<>> /\ done = 0 /\ faces = <<>>
\* "new" gives the partition and the faces; "coarse" the grid the code made of them
TNext == l <= LogLen /\
    CASE Ev.e = "new"    -> l' = l + 1 /\ part' = Ev.p /\ neigh' = Ev.neigh /\ done' = 0 /\ faces' = <<>>
      [] Ev.e = "coarse" -> l' = l + 1 /\ UNCHANGED <<part, neigh, done>> /\ faces' = AllFaces /\ Represents(Ev.t, Ev.want)
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
