------------------------------- MODULE MCPvt -------------------------------
(* A point moves over small tables of every kind: pressure and the ratio of *)
(* surface volumes go up and down one step at a time.                       *)
EXTENDS Pvt
CONSTANTS Bs, PMax, MMax
VARIABLES oil, gas, dead, p, m2      \* m2: twice the ratio (of gas to oil for oil, of oil to gas for gas)
mvars == <<oil, gas, dead, p, m2>>
R1(a) == <<4, a, 100>>
OilRecs(a, b, c, d) == << [r |-> 0, rows |-> IF d = 1 THEN <<<<4, a, 100>>>> ELSE <<<<4, a, 100>>, <<8, a + 8, 110>>>>],
                          [r |-> 2, rows |-> IF d = 2 THEN <<<<6, b, 90>>>> ELSE <<<<6, b, 90>>, <<8, b + 4, 94>>, <<16, b + 24, 120>>>>],
                          [r |-> 6, rows |-> <<<<10, c, 80>>, <<14, c + 8, 88>>>>] >>
GasRecs(a, b, c, d) == << [p |-> 4, rows |-> IF d = 1 THEN <<<<2, a, 100>>>> ELSE <<<<2, a, 100>>, <<0, a + 8, 90>>>>],
                          [p |-> 6, rows |-> IF d = 2 THEN <<<<4, b, 110>>>> ELSE <<<<4, b, 110>>, <<2, b + 4, 104>>, <<0, b + 6, 100>>>>],
                          [p |-> 10, rows |-> <<<<6, c, 130>>, <<2, c + 16, 122>>>>] >>
MInit == /\ \E a, b, c \in Bs, d \in 0..2 : /\ oil = OilRecs(a, b, c, d) /\ gas = GasRecs(a, b, c, d) /\ dead = <<<<1, a, 100>>, <<5, b, 104>>, <<13, c, 120>>>>
         /\ p = 1 /\ m2 = 0
PUp == p < PMax /\ p' = p + 1 /\ UNCHANGED <<oil, gas, dead, m2>>
PDown == p > 1 /\ p' = p - 1 /\ UNCHANGED <<oil, gas, dead, m2>>
MUp == m2 < MMax /\ m2' = m2 + 1 /\ UNCHANGED <<oil, gas, dead, p>>
MDown == m2 > 0 /\ m2' = m2 - 1 /\ UNCHANGED <<oil, gas, dead, p>>
MNext == PUp \/ PDown \/ MUp \/ MDown
MSpec == MInit /\ [][MNext]_mvars
The(S) == (CHOOSE w \in S : TRUE)
\* the dissolved ratio never passes either limit, and reaches one of them
Limits == /\ \A w \in OilR(oil, p, 2, m2) : w.any \/ m2 = 0 \/ (w.lo = w.hi /\ w.lo <= OilRs(oil, p) /\ w.lo <= 32 * m2 /\ (m2 > 0 => w.lo \in {OilRs(oil, p), 32 * m2}))
          /\ \A w \in GasR(gas, p, m2, 2) : w.any \/ m2 = 0 \/ (w.lo = w.hi /\ w.lo <= GasRv(gas, p) /\ w.lo <= 32 * m2 /\ (m2 > 0 => w.lo \in {GasRv(gas, p), 32 * m2}))
\* complete tables give one value except where the point crosses saturation
Single == /\ ((\A i \in 1..3 : Full(oil[i])) /\ ~OilTie(oil, p, 2, m2)) => \A k \in {2, 3} : Cardinality(OilV(oil, k, p, 2, m2)) = 1
          /\ (~GasTie(gas, p, m2, 2) /\ (\A i \in 1..3 : Full(gas[i]))) => \A k \in {2, 3} : Cardinality(GasV(gas, k, p, m2, 2)) = 1
\* at the nodes of the tables: the row itself
Nodes == /\ \A i \in 1..3 : \A j \in 1..Len(oil[i].rows) : p = oil[i].rows[j][1] /\ m2 = 2 * oil[i].r => \A k \in {2, 3} : Allowed(OilV(oil, k, p, 2, m2), 64 * oil[i].rows[j][k])
         /\ \A i \in 1..3 : \A j \in 1..Len(gas[i].rows) : p = gas[i].p /\ m2 = 2 * gas[i].rows[j][1] /\ (Full(gas[i]) /\ (j > 1 => (i = 3 \/ Full(gas[i + 1])) /\ (i = 1 \/ Full(gas[i - 1])))) => \A k \in {2, 3} : Allowed(GasV(gas, k, p, m2, 2), 64 * gas[i].rows[j][k])
         /\ \A i \in 1..3 : p = dead[i][1] => \A k \in {2, 3} : DeadV(dead, k, p) = {Exact(64 * dead[i][k])} /\ \A n \in {2, 5, 200} : Allowed(SplineV(dead, k, p, n), 64 * dead[i][k])
\* along a step the values change by the slopes allowed at one of its ends
Step(V, D) == \A a \in V : \A b \in V' : (~a.any /\ ~b.any /\ a.lo = a.hi /\ b.lo = b.hi) => (\E d \in D \cup D' : d.any \/ (d.lo <= b.lo - a.lo /\ b.lo - a.lo <= d.hi))
SameSide == OilSat(oil, p, 2, m2) = OilSat(oil, p, 2, m2)' /\ ~OilTie(oil, p, 2, m2) /\ ~OilTie(oil, p, 2, m2)' /\ GasSat(gas, p, m2, 2) = GasSat(gas, p, m2, 2)' /\ ~GasTie(gas, p, m2, 2) /\ ~GasTie(gas, p, m2, 2)'
Slopes == [][(p' = p + 1 /\ SameSide) => /\ Step(OilV(oil, 2, p, 2, m2), OilD(oil, p, 2, m2)) /\ ((\A i \in 1..3 : Full(gas[i])) => Step(GasV(gas, 2, p, m2, 2), GasD(gas, p, m2, 2)))
                                         /\ Step(OilR(oil, p, 2, m2), OilRD(oil, p, 2, m2)) /\ Step(GasR(gas, p, m2, 2), GasRD(gas, p, m2, 2))
                                         /\ Step(DeadV(dead, 2, p), DeadD(dead, p))]_mvars
\* saturated fluids do not feel more of the other component
Saturated == [][(m2' = m2 + 1 /\ m2 > 0 /\ OilSat(oil, p, 2, m2)) => OilV(oil, 2, p, 2, m2)' = OilV(oil, 2, p, 2, m2)]_mvars
=============================================================================
