------------------------------- MODULE Wells -------------------------------
(* The wells container (opm/core/wells.h): collections of wells with their  *)
(* completions and their control sets, built up by a history of operations. *)
(* A collection lives under a handle; Clone makes an independent copy.      *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE col      \* handle -> [np, wells]

NoWells == [np |-> 0, wells |-> <<>>]      \* an unused handle

Zeros(n) == [i \in 1..n |-> 0]

\* Optional arguments arrive as sequences of length 0 or 1.
Opt(o, dflt) == IF o = <<>> THEN dflt ELSE o[1]

Live(h) == col[h].np > 0
NW(h)   == Len(col[h].wells)

Create(h, np) ==
    /\ ~Live(h)
    /\ np > 0
    /\ col' = [col EXCEPT ![h] = [np |-> np, wells |-> <<>>]]

AddWell(h, ty, depth, comp, cells, wi, name) ==
    /\ Live(h)
    /\ LET w == [type |-> ty, depth |-> depth, comp |-> Opt(comp, Zeros(col[h].np)),
                 cells |-> cells, wi |-> Opt(wi, Zeros(Len(cells))), name |-> name,
                 ctrls |-> <<>>, cur |-> -1]
       IN col' = [col EXCEPT ![h].wells = Append(@, w)]

AppendControl(h, w, ty, target, distr) ==
    /\ Live(h) /\ w \in 1..NW(h)
    /\ LET c == [type |-> ty, target |-> target, distr |-> Opt(distr, Zeros(col[h].np))]
       IN col' = [col EXCEPT ![h].wells[w].ctrls = Append(@, c)]

\* cur is zero-based in the code; negative values close the well.
SetCurrent(h, w, c) ==
    /\ Live(h) /\ w \in 1..NW(h)
    /\ c < Len(col[h].wells[w].ctrls)
    /\ col' = [col EXCEPT ![h].wells[w].cur = c]

ClearControls(h, w) ==
    /\ Live(h) /\ w \in 1..NW(h)
    /\ col' = [col EXCEPT ![h].wells[w].ctrls = <<>>]

Clone(h, g) ==
    /\ Live(h) /\ ~Live(g)
    /\ col' = [col EXCEPT ![g] = col[h]]

Destroy(h) ==
    /\ Live(h)
    /\ col' = [col EXCEPT ![h] = NoWells]

-----------------------------------------------------------------------------
(* Structural invariants of every reachable collection. *)
WellFormed ==
    \A h \in DOMAIN col :
        \A i \in 1..NW(h) :
            LET w == col[h].wells[i]
            IN  /\ Len(w.comp) = col[h].np
                /\ Len(w.wi) = Len(w.cells)
                /\ \A c \in 1..Len(w.ctrls) : Len(w.ctrls[c].distr) = col[h].np

\* Wells are only ever added, never lost, reordered or altered by growth, and an
\* operation on one collection never shows in another.
Monotone ==
    \A h \in DOMAIN col :
        \/ ~Live(h)
        \/ col'[h] = NoWells
        \/ /\ Len(col'[h].wells) >= NW(h)
           /\ \A i \in 1..NW(h) :
                 [f \in {"type", "depth", "comp", "cells", "wi", "name"} |-> col'[h].wells[i][f]] =
                 [f \in {"type", "depth", "comp", "cells", "wi", "name"} |-> col[h].wells[i][f]]
OneAtATime ==
    Cardinality({h \in DOMAIN col : col'[h] # col[h]}) <= 1
=============================================================================
