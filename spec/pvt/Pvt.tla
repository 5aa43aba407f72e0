-------------------------------- MODULE Pvt --------------------------------
(* Black-oil fluid properties as functions of pressure and composition.     *)
(* Pressures are whole bars; 1/B (B itself for live gas) and viscosities    *)
(* are whole 1/128 in the tables; results are scaled by 8192 (65536 for     *)
(* constant-compressibility phases), dissolution ratios by 64.  zl, zv are  *)
(* the surface volumes of oil and gas.                                      *)
EXTENDS Integers, Sequences, FiniteSets
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
Abs(x) == IF x < 0 THEN -x ELSE x
Hull(S) == <<MinS(S), MaxS(S)>>
\* ------------------------------------------------------------ piecewise linear tables
\* the sections of the nodes xs (rising or falling) that x lies in; those at the ends reach beyond
Sections(xs, x) == LET n == Len(xs) up == xs[2] > xs[1] IN
    {i \in 1..(n - 1) : /\ (i = 1 \/ (up /\ xs[i] <= x) \/ (~up /\ xs[i] >= x))
                        /\ (i = n - 1 \/ (up /\ x <= xs[i + 1]) \/ (~up /\ x >= xs[i + 1]))}
Line(x1, y1, x2, y2, x, S) == S * y1 + (S * (y2 - y1) * (x - x1)) \div (x2 - x1)
Slope(x1, y1, x2, y2, S) == (S * (y2 - y1)) \div (x2 - x1)
LinAt(xs, ys, x, S) == LET i == CHOOSE k \in Sections(xs, x) : TRUE IN Line(xs[i], ys[i], xs[i + 1], ys[i + 1], x, S)
SlopesAt(xs, ys, x, S) == {Slope(xs[i], ys[i], xs[i + 1], ys[i + 1], S) : i \in Sections(xs, x)}
Inside(xs, x) == MinS({xs[1], xs[Len(xs)]}) <= x /\ x <= MaxS({xs[1], xs[Len(xs)]})
Col(rows, k) == [i \in 1..Len(rows) |-> rows[i][k]]
\* what is allowed for a value: an interval, or anything
Exact(v) == [any |-> FALSE, lo |-> v, hi |-> v]
Range(S) == [any |-> FALSE, lo |-> MinS(S), hi |-> MaxS(S)]
Any == [any |-> TRUE, lo |-> 0, hi |-> 0]
Ok(w, v) == w.any \/ (w.lo = w.hi /\ v = w.lo) \/ (w.lo < w.hi /\ w.lo - 1 <= v /\ v <= w.hi + 1)
\* ------------------------------------------------------------ constant compressibility [pref, b, c, v, cv]
Poly(t) == 512 + 32 * t + t * t                      \* 512 (1 + x + x^2/2), x = t/16
ConstF(T, p) == T.b * Poly(T.c * (p - T.pref))
ConstM(T, p) == T.v * Poly(-(T.cv * (p - T.pref)))   \* of 1/mu
ConstD(T, p) == 2 * T.b * T.c * (16 + T.c * (p - T.pref))
Default == [k |-> "const", pref |-> 0, b |-> 128, c |-> 0, v |-> 256, cv |-> 0]
\* ------------------------------------------------------------ dead oil, dry gas: rows <<p, b, v>>
DeadV(rows, k, p) == IF Inside(Col(rows, 1), p) THEN {Exact(LinAt(Col(rows, 1), Col(rows, k), p, 64))} ELSE {Any}
DeadD(rows, p) == LET xs == Col(rows, 1) IN
    IF Inside(xs, p) /\ p # xs[1] /\ p # xs[Len(xs)] THEN {Exact(s) : s \in SlopesAt(xs, Col(rows, 2), p, 64)} ELSE {Any}
\* sampled at n points through a curve that is monotone where the table is: between the values of the nodes nearby
Near(rows, p, n) == LET xs == Col(rows, 1) h == ((xs[Len(xs)] - xs[1]) + n - 2) \div (n - 1) IN
    {i \in 1..Len(xs) : (\E k \in 1..(Len(xs) - 1) : xs[k] <= p + h /\ xs[k + 1] >= p - h /\ i \in {k, k + 1})}
Monotone(ys) == (\A i \in 1..(Len(ys) - 1) : ys[i] <= ys[i + 1]) \/ (\A i \in 1..(Len(ys) - 1) : ys[i] >= ys[i + 1])
SplineV(rows, k, p, n) == IF Inside(Col(rows, 1), p) /\ Monotone(Col(rows, k)) THEN LET S == {64 * rows[i][k] : i \in Near(rows, p, n)} IN {[any |-> FALSE, lo |-> MinS(S) - 1, hi |-> MaxS(S) + 1]} ELSE {Any}
SplineD(rows, p, n) == LET N == Near(rows, p, n) xs == Col(rows, 1)
                           up == \A i, j \in N : i < j => rows[i][2] <= rows[j][2]
                           down == \A i, j \in N : i < j => rows[i][2] >= rows[j][2] IN
    IF ~Inside(xs, p) \/ ~Monotone(Col(rows, 2)) THEN {Any} ELSE IF up /\ down THEN {[any |-> FALSE, lo |-> -1, hi |-> 1]}
    ELSE IF up THEN {[any |-> FALSE, lo |-> -1, hi |-> 1000000]} ELSE IF down THEN {[any |-> FALSE, lo |-> -1000000, hi |-> 1]} ELSE {Any}
\* ------------------------------------------------------------ live oil: records [r, rows <<p, b, v>>], the first row saturated
SatP(recs) == [i \in 1..Len(recs) |-> recs[i].rows[1][1]]
SatR(recs) == [i \in 1..Len(recs) |-> recs[i].r]
SatC(recs, k) == [i \in 1..Len(recs) |-> recs[i].rows[1][k]]
OilRs(recs, p) == LinAt(SatP(recs), SatR(recs), p, 64)
\* (below pressures where the saturated line would reach a negative ratio anything goes)
\* twice the ratio of surface volumes (0 without gas)
Twice(num, den) == (2 * num) \div den
OilSat(recs, p, zl, zv) == OilRs(recs, p) < 32 * Twice(zv, zl)
OilTie(recs, p, zl, zv) == OilRs(recs, p) = 32 * Twice(zv, zl)
\* one record at pressure p, times 8: an interval where rows had to be filled in
Full(r) == Len(r.rows) > 1
RecSlopes(r, k) == {Slope(r.rows[j][1], r.rows[j][k], r.rows[j + 1][1], r.rows[j + 1][k], 8) : j \in 1..(Len(r.rows) - 1)}
Guide(recs, i) == LET a == {j \in 1..(i - 1) : Full(recs[j])} b == {j \in (i + 1)..Len(recs) : Full(recs[j])} IN
    (IF a = {} THEN {} ELSE {MaxS(a)}) \cup (IF b = {} THEN {} ELSE {MinS(b)})
FillSlopes(recs, i, k) == UNION {RecSlopes(recs[j], k) : j \in Guide(recs, i)}
OilRec(recs, i, k, p) == LET r == recs[i] d == p - r.rows[1][1] s == FillSlopes(recs, i, k) IN
    IF Full(r) THEN LET v == LinAt(Col(r.rows, 1), Col(r.rows, k), p, 8) IN <<v, v>>
    ELSE Hull({8 * r.rows[1][k] + d * MinS(s), 8 * r.rows[1][k] + d * MaxS(s)})
OilRecD(recs, i, k, p) == LET r == recs[i] IN
    IF Full(r) THEN {<<s, s>> : s \in SlopesAt(Col(r.rows, 1), Col(r.rows, k), p, 8)} ELSE {Hull(FillSlopes(recs, i, k))}
\* between two records, w8 eighths of the way from the first interval to the second
Mix(a, b, w8) == IF w8 >= 0 /\ w8 <= 8 THEN [any |-> FALSE, lo |-> (8 - w8) * a[1] + w8 * b[1], hi |-> (8 - w8) * a[2] + w8 * b[2]]
                 ELSE IF a[1] = a[2] /\ b[1] = b[2] THEN Exact((8 - w8) * a[1] + w8 * b[1]) ELSE Any
W8(x1, x2, m2) == (4 * (m2 - 2 * x1)) \div (x2 - x1)
OilSections(recs, m2) == Sections([i \in 1..Len(recs) |-> 2 * recs[i].r], m2)
OilUnder(recs, k, p, m2) == {Mix(OilRec(recs, i, k, p), OilRec(recs, i + 1, k, p), W8(recs[i].r, recs[i + 1].r, m2)) : i \in OilSections(recs, m2)}
OilUnderD(recs, k, p, m2) == UNION {{Mix(a, b, W8(recs[i].r, recs[i + 1].r, m2)) : a \in OilRecD(recs, i, k, p), b \in OilRecD(recs, i + 1, k, p)} : i \in OilSections(recs, m2)}
OilV(recs, k, p, zl, zv) == IF zl = 0 \/ OilRs(recs, p) < 0 THEN {Any} ELSE LET m2 == Twice(zv, zl)
    sat == {Exact(LinAt(SatP(recs), SatC(recs, k), p, 64))} IN
    IF OilTie(recs, p, zl, zv) THEN sat \cup OilUnder(recs, k, p, m2)
    ELSE IF OilSat(recs, p, zl, zv) THEN sat ELSE OilUnder(recs, k, p, m2)
OilD(recs, p, zl, zv) == IF zl = 0 \/ OilRs(recs, p) < 0 THEN {Any} ELSE LET m2 == Twice(zv, zl)
    sat == {Exact(s) : s \in SlopesAt(SatP(recs), SatC(recs, 2), p, 64)} IN
    IF OilTie(recs, p, zl, zv) THEN sat \cup OilUnderD(recs, 2, p, m2)
    ELSE IF OilSat(recs, p, zl, zv) THEN sat ELSE OilUnderD(recs, 2, p, m2)
OilR(recs, p, zl, zv) == IF zv = 0 THEN {Exact(0)} ELSE IF zl = 0 \/ OilRs(recs, p) < 0 THEN {Any} ELSE {Exact(Min(OilRs(recs, p), 32 * Twice(zv, zl)))}
OilRD(recs, p, zl, zv) == LET sat == {Exact(s) : s \in SlopesAt(SatP(recs), SatR(recs), p, 64)} IN
    IF zv = 0 THEN {Exact(0)} ELSE IF zl = 0 \/ OilRs(recs, p) < 0 THEN {Any} ELSE IF OilTie(recs, p, zl, zv) THEN sat \cup {Exact(0)} ELSE IF OilSat(recs, p, zl, zv) THEN sat ELSE {Exact(0)}
\* ------------------------------------------------------------ live gas: records [p, rows <<r, b, v>>] with falling r, the first row saturated
GasP(recs) == [i \in 1..Len(recs) |-> recs[i].p]
GasRs(recs) == [i \in 1..Len(recs) |-> recs[i].rows[1][1]]
GasRv(recs, p) == LinAt(GasP(recs), GasRs(recs), p, 64)
GasSat(recs, p, zl, zv) == IF zv = 0 THEN TRUE ELSE GasRv(recs, p) < 32 * Twice(zl, zv)
GasTie(recs, p, zl, zv) == zv # 0 /\ GasRv(recs, p) = 32 * Twice(zl, zv)
GasRec(recs, i, k, m2) == LET r == recs[i] IN IF Full(r) THEN LinAt([j \in 1..Len(r.rows) |-> 2 * r.rows[j][1]], Col(r.rows, k), m2, 8) ELSE 8 * r.rows[1][k]
GasPair(recs, i, k, m2) == IF Full(recs[i]) /\ Full(recs[i + 1]) THEN <<GasRec(recs, i, k, m2), GasRec(recs, i + 1, k, m2)>> ELSE <<8 * recs[i].rows[1][k], 8 * recs[i + 1].rows[1][k]>>
GasUnder(recs, k, p, m2) == LET P == GasP(recs) n == Len(recs) IN
    IF p < P[1] THEN {Exact(8 * GasRec(recs, 1, k, m2))} ELSE IF p > P[n] THEN {Exact(8 * GasRec(recs, n, k, m2))}
    ELSE {LET v == GasPair(recs, i, k, m2) IN Exact(Line(P[i], v[1], P[i + 1], v[2], p, 8)) : i \in Sections(P, p)}
GasUnderD(recs, k, p, m2) == LET P == GasP(recs) n == Len(recs) IN
    (IF p <= P[1] \/ p >= P[n] THEN {Exact(0)} ELSE {}) \cup
    (IF p < P[1] \/ p > P[n] THEN {} ELSE {LET v == GasPair(recs, i, k, m2) IN Exact(Slope(P[i], v[1], P[i + 1], v[2], 8)) : i \in Sections(P, p)})
GasV(recs, k, p, zl, zv) == IF GasRv(recs, p) < 0 THEN {Any} ELSE LET sat == {Exact(LinAt(GasP(recs), SatC(recs, k), p, 64))} IN
    IF zv = 0 /\ k = 2 THEN {Exact(8192)} ELSE IF zv = 0 THEN (IF zl = 0 THEN {Any} ELSE sat) ELSE LET m2 == Twice(zl, zv) IN
    IF GasTie(recs, p, zl, zv) THEN sat \cup GasUnder(recs, k, p, m2)
    ELSE IF GasSat(recs, p, zl, zv) THEN sat ELSE GasUnder(recs, k, p, m2)
GasD(recs, p, zl, zv) == IF GasRv(recs, p) < 0 THEN {Any} ELSE LET sat == {Exact(s) : s \in SlopesAt(GasP(recs), SatC(recs, 2), p, 64)} IN
    IF zv = 0 THEN {Exact(0)} ELSE LET m2 == Twice(zl, zv) IN
    IF GasTie(recs, p, zl, zv) THEN sat \cup GasUnderD(recs, 2, p, m2)
    ELSE IF GasSat(recs, p, zl, zv) THEN sat ELSE GasUnderD(recs, 2, p, m2)
GasR(recs, p, zl, zv) == IF zl = 0 THEN {Exact(0)} ELSE IF GasRv(recs, p) < 0 THEN {Any} ELSE IF zv = 0 THEN {Exact(GasRv(recs, p))} ELSE {Exact(Min(GasRv(recs, p), 32 * Twice(zl, zv)))}
GasRD(recs, p, zl, zv) == LET sat == {Exact(s) : s \in SlopesAt(GasP(recs), GasRs(recs), p, 64)} IN
    IF zl = 0 THEN {Exact(0)} ELSE IF GasRv(recs, p) < 0 THEN {Any} ELSE IF GasTie(recs, p, zl, zv) THEN sat \cup {Exact(0)} ELSE IF GasSat(recs, p, zl, zv) THEN sat ELSE {Exact(0)}
\* ------------------------------------------------------------ any phase: ph = 1 water, 2 oil, 3 gas
FV(T, ph, p, zl, zv, n) == CASE T.k = "const" -> {Exact(ConstF(T, p))}
    [] T.k = "dead" -> IF n > 0 THEN SplineV(T.rows, 2, p, n) ELSE DeadV(T.rows, 2, p)
    [] OTHER -> IF ph = 2 THEN OilV(T.recs, 2, p, zl, zv) ELSE GasV(T.recs, 2, p, zl, zv)
MV(T, ph, p, zl, zv, n) == CASE T.k = "const" -> {Exact(ConstM(T, p))}
    [] T.k = "dead" -> IF n > 0 THEN SplineV(T.rows, 3, p, n) ELSE DeadV(T.rows, 3, p)
    [] OTHER -> IF ph = 2 THEN OilV(T.recs, 3, p, zl, zv) ELSE GasV(T.recs, 3, p, zl, zv)
DV(T, ph, p, zl, zv, n) == CASE T.k = "const" -> {Exact(ConstD(T, p))}
    [] T.k = "dead" -> IF n > 0 THEN SplineD(T.rows, p, n) ELSE DeadD(T.rows, p)
    [] OTHER -> IF ph = 2 THEN OilD(T.recs, p, zl, zv) ELSE GasD(T.recs, p, zl, zv)
RV(T, ph, p, zl, zv) == IF T.k # "live" THEN {Exact(0)} ELSE IF ph = 2 THEN OilR(T.recs, p, zl, zv) ELSE GasR(T.recs, p, zl, zv)
RD(T, ph, p, zl, zv) == IF T.k # "live" THEN {Exact(0)} ELSE IF ph = 2 THEN OilRD(T.recs, p, zl, zv) ELSE GasRD(T.recs, p, zl, zv)
Allowed(S, v) == \E w \in S : Ok(w, v)
=============================================================================
