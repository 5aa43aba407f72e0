----------------------------- MODULE TraceWells -----------------------------
(* Recorded histories of the real container.  Every event carries the full  *)
(* projected state of every live collection after the call.                 *)
EXTENDS Wells, TraceLib
VARIABLE l
vars == <<col, l>>
Ev == Log[l]
N == 4
TInit == l = 1 /\ col = [h \in 1..N |-> NoWells]
\* observed state of all handles
Obs == [h \in 1..N |-> Ev.st[h]]
Step(a) == l <= LogLen /\ l' = l + 1 /\ a /\ col' = Obs
TNext == l <= LogLen /\
    CASE Ev.e = "new"     -> l' = l + 1 /\ col' = [h \in 1..N |-> NoWells]
      [] Ev.e = "create"  -> Step(Create(Ev.h, Ev.np))
      [] Ev.e = "add"     -> Step(AddWell(Ev.h, Ev.type, Ev.depth, Ev.comp, Ev.cells, Ev.wi, Ev.name))
      [] Ev.e = "append"  -> Step(AppendControl(Ev.h, Ev.w, Ev.type, Ev.target, Ev.distr))
      [] Ev.e = "current" -> Step(SetCurrent(Ev.h, Ev.w, Ev.c))
      [] Ev.e = "clear"   -> Step(ClearControls(Ev.h, Ev.w))
      [] Ev.e = "clone"   -> Step(Clone(Ev.h, Ev.g))
      [] Ev.e = "destroy" -> Step(Destroy(Ev.h))
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
