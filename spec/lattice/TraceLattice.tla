---------------------------- MODULE TraceLattice ----------------------------
EXTENDS Lattice, TraceLib
VARIABLE l
vars == <<lvars, l>>
Ev == Log[l]
TInit == l = 1 /\ g = [dim |-> 2, x |-> <<0, 2>>, y |-> <<0, 2>>, z |-> <<>>, dep |-> <<>>]
TNext == l <= LogLen /\ l' = l + 1 /\
    CASE Ev.e = "grid" -> Build(Ev.in) /\ (\E o \in {Ev.o}, r \in {Ev.in} : Shows(r, o))
      [] Ev.e = "refused" -> UNCHANGED lvars /\ Ev.threw
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
