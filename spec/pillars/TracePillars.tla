---------------------------- MODULE TracePillars ----------------------------
EXTENDS Pillars, TraceLib
VARIABLE l
Ev == Log[l]
TInit == l = 1
TNext == l <= LogLen /\ l' = l + 1 /\ Ev.e = "cpgrid" /\ (\E o \in {Ev.o}, r \in {Ev.in} : Shows(r, o))
TSpec == TInit /\ [][TNext]_l
=============================================================================
