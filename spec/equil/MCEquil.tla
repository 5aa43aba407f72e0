------------------------------ MODULE MCEquil ------------------------------
(* A column whose pressures are found cell by cell, outwards from the datum. *)
EXTENDS Equil, TLC
CONSTANTS Depth, Gs
VARIABLES woc, datum, R, g, p, sat
vars == <<woc, datum, R, g, p, sat>>
Zs == 1..Depth
Init == /\ woc \in (-1)..(Depth + 2) /\ datum \in (-1)..(Depth + 2) /\ g \in Gs
        /\ R \in [lo : 1..3, hi : 1..3] /\ p = [z \in {datum} |-> 100] /\ sat = <<>>
\* crossing one unit of depth
Unit(z) == g * (IF z >= woc THEN R.lo ELSE R.hi)      \* from z to z+1
Down == \E z \in DOMAIN p : z + 1 \notin DOMAIN p /\ z < Max(Depth, Max(woc, datum)) /\ p' = [y \in DOMAIN p \cup {z + 1} |-> IF y = z + 1 THEN p[z] + Unit(z) ELSE p[y]] /\ UNCHANGED <<woc, datum, R, g, sat>>
Up == \E z \in DOMAIN p : z - 1 \notin DOMAIN p /\ z > Min(1, Min(woc, datum)) /\ p' = [y \in DOMAIN p \cup {z - 1} |-> IF y = z - 1 THEN p[z] - Unit(z - 1) ELSE p[y]] /\ UNCHANGED <<woc, datum, R, g, sat>>
Fill == Len(sat) < Depth /\ sat' = Append(sat, IF Below(Len(sat) + 1, woc) THEN "water" ELSE "oil") /\ UNCHANGED <<woc, datum, R, g, p>>
Next == Down \/ Up \/ Fill
Spec == Init /\ [][Next]_vars
Closed == \A z \in DOMAIN p : p[z] = Static(z, datum, 100, g, woc, R)
Deeper == \A y, z \in DOMAIN p : y < z => p[y] <= p[z] /\ (g > 0 => p[y] < p[z])
Sorted == \A i, k \in DOMAIN sat : (i < k /\ sat[i] = "water") => sat[k] = "water"
Settled == \A z \in DOMAIN p : (z \in DOMAIN sat /\ z + 1 \in DOMAIN sat /\ z + 1 \in DOMAIN p /\ sat[z] = sat[z+1]) => p[z+1] - p[z] = g * (IF sat[z] = "water" /\ z >= woc THEN R.lo ELSE IF sat[z+1] = "oil" THEN R.hi ELSE R.lo)
FaceBetween == \A y, z \in DOMAIN p : \A d1 \in 1..2, d2 \in 1..2 : y < z => LET f == Between(p[y], d1, p[z], d2) IN p[y] * (d1 + d2) <= f /\ f <= p[z] * (d1 + d2)
=============================================================================
