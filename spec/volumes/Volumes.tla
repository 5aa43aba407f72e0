------------------------------ MODULE Volumes ------------------------------
(* What a simulator reports from a state: volumes, averages, mobilities,    *)
(* fractional flows, injected and produced amounts, sources and well rates. *)
(* Cells and phases count from 0 in the data; sequences hold cell c, phase  *)
(* p at position c*np + p + 1.  Saturations and fractions are in quarters,  *)
(* mobilities in sixteenths.                                                *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Total(f) == Sum(f, Len(f))
At(v, np, c, p) == v[c * np + p + 1]
Pos(x) == IF x > 0 THEN x ELSE 0
Neg(x) == IF x < 0 THEN -x ELSE 0
\* the value q, a rounded multiple of 1/Q, stands for num/den (den > 0; slack in units of 1/Q)
Near(q, Q, num, den, slack) == Abs(q * den - Q * num) <= slack * den
\* ------------------------------------------------------------ rock
\* pore volume multipliers in 1/512: 1 + x + x*x/2 with x in sixteenths
Quad(k16, pref, p) == LET x == k16 * (p - pref) IN 512 + 32 * x + x * x
\* tables of pressures and multipliers (in 1/32); the end segments go on beyond the table
Seg(tp, p) == LET S == {k \in 1..(Len(tp) - 1) : tp[k] < p} IN IF S = {} THEN 1 ELSE CHOOSE k \in S : \A m \in S : m <= k
Slope(tp, tm, k) == (16 * (tm[k + 1] - tm[k])) \div (tp[k + 1] - tp[k])
TabMult(tp, tm, p) == LET k == Seg(tp, p) IN 16 * tm[k] + Slope(tp, tm, k) * (p - tp[k])
\* ------------------------------------------------------------ volumes
SatVol(pv, s, np, p) == Total([c \in 1..Len(pv) |-> pv[c] * At(s, np, c - 1, p)])
\* ------------------------------------------------------------ mobilities
Mob(R, s4, mu) == R * s4 * (4 \div mu)
Mobs(R, mu, np, c, s, k) == [p \in 1..np |-> Mob(At(R, np, c, p - 1), At(s, np, k, p - 1), mu[p])]     \* cell c, saturations of point k
\* viscosities and phase contents of the compressible fluid of the harness
BoMu(p, z, c, np) == [q \in 1..np |-> LET e == (p + z[q] + c + q - 1) % 3 IN IF e = 0 THEN 1 ELSE 2 * e]
BoA(p, z4, c, row, col) == IF row = col THEN 2 + ((p + c + row) % 3) ELSE (z4[row + 1] + row + 2 * col) % 3
\* ------------------------------------------------------------ injection and production (unit 1/Q)
Outflow(src) == Total([c \in 1..Len(src) |-> Neg(src[c])])
Inflow(src) == Total([c \in 1..Len(src) |-> Pos(src[c])])
\* ------------------------------------------------------------ sources of the saturation equation, in quarters
InPart(x, frac) == IF x > 0 THEN frac * x ELSE 4 * x
Faces(pairs) == 0..((Len(pairs) \div 2) - 1)
Influx(pairs, flux, f, c) == LET a == pairs[2 * f + 1] b == pairs[2 * f + 2] IN IF a = c /\ b = -1 THEN -flux[f + 1] ELSE IF a = -1 /\ b = c THEN flux[f + 1] ELSE 0
GridSrc(pairs, flux, src, frac, c) == InPart(src[c + 1], frac) + Total([f \in 1..(Len(pairs) \div 2) |-> InPart(Influx(pairs, flux, f - 1, c), frac)])
\* perforations in the order of the wells
RECURSIVE First(_, _)
First(wells, w) == IF w = 1 THEN 0 ELSE First(wells, w - 1) + Len(wells[w - 1].cells)
NPerf(wells) == First(wells, Len(wells) + 1)
\* water that a perforation brings (a factor for the volume of water at the surface may apply)
PerfSrc(well, rate, factor) == IF rate <= 0 THEN 4 * rate ELSE IF well.prod THEN 0 ELSE rate * well.comp[1] * factor
WellSum(wells, V(_, _), n) == LET RECURSIVE G(_, _)
                                 G(w, k) == IF w > n THEN 0 ELSE IF k > Len(wells[w].cells) THEN G(w + 1, 1) ELSE V(w, k) + G(w, k + 1)
                             IN G(1, 1)
PerfSum(well, V(_)) == Total([k \in 1..Len(well.cells) |-> V(k)])
\* ------------------------------------------------------------ wells as sources, in quarters
AsSource(w) == w.ctrl[w.cur].t = 1 /\ Len(w.cells) = 1 /\ (\A p \in 1..Len(w.ctrl[w.cur].distr) : w.ctrl[w.cur].distr[p] = 1)
SourceOf(w) == w.ctrl[w.cur].target * (IF w.prod THEN 4 ELSE w.comp[1])
=============================================================================
