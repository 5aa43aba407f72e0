-------------------------------- MODULE Satf --------------------------------
(* Relative permeabilities and capillary pressures of water, oil and gas    *)
(* from saturation tables, and their end-point scaling.                     *)
(* Saturations count in 1/128, relative permeabilities of the tables in     *)
(* 1/64; results are intervals <<lo, hi>> counting in 1/4096.               *)
EXTENDS Integers, Sequences, FiniteSets
Full == 128
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == -((-a) \div b)
Span(a, b) == <<Min2(a, b), Max2(a, b)>>
\* interval times the fraction n/d (n, d >= 0)
Times(I, n, d) == <<(I[1] * n) \div d, CeilDiv(I[2] * n, d)>>
Plus(I, K) == <<I[1] + K[1], I[2] + K[2]>>
Minus(I, K) == <<I[1] - K[2], I[2] - K[1]>>
Prod(I, K) == <<(I[1] * K[1]) \div 4096, CeilDiv(I[2] * K[2], 4096)>>
NonNeg(I) == <<Max2(I[1], 0), Max2(I[2], 0)>>
Zero == <<0, 0>>
\* ---------------------------------------------------------------- tables
\* a table: rows <<s, kr of the displacing phase, kr of oil, capillary pressure>>, s strictly increasing
First(T) == T[1]
Last(T) == T[Len(T)]
\* segment of the position N/e
Seg(T, N, e) == LET ks == {k \in 1..(Len(T) - 1) : T[k][1] * e <= N} IN IF ks = {} THEN 1 ELSE CHOOSE k \in ks : \A m \in ks : m <= k
Lin(T, col, N, e, Q) == LET k == Seg(T, N, e) num == (T[k + 1][col] - T[k][col]) * Q * (N - T[k][1] * e) den == (T[k + 1][1] - T[k][1]) * e IN
    <<T[k][col] * Q + (num \div den), T[k][col] * Q + CeilDiv(num, den)>>
AtNode(T, N, e) == \E k \in 1..Len(T) : T[k][1] * e = N
\* tables resampled at S evenly spaced places through a monotone curve: exact where place and node coincide and
\* where the data lie on a line, otherwise between the values of the nodes around
AtSample(T, N, e, S) == ((N - First(T)[1] * e) * (S - 1)) % ((Last(T)[1] - First(T)[1]) * e) = 0
OnLine(T, col) == \A k \in 2..Len(T) : (T[k][col] - T[1][col]) * (T[2][1] - T[1][1]) = (T[2][col] - T[1][col]) * (T[k][1] - T[1][1])
Widen(I) == <<I[1] - 1, I[2] + 1>>
Resampled(T, col, N, e, S, Q) ==
    LET xr == (Last(T)[1] - First(T)[1]) * e  h == IF AtSample(T, N, e, S) THEN 0 ELSE xr
        below == {k \in 1..Len(T) : T[k][1] * e * (S - 1) <= N * (S - 1) - h}  above == {k \in 1..Len(T) : T[k][1] * e * (S - 1) >= N * (S - 1) + h}
        lo == IF below = {} THEN 1 ELSE CHOOSE k \in below : \A m \in below : m <= k
        hi == IF above = {} THEN Len(T) ELSE CHOOSE k \in above : \A m \in above : m >= k IN
    IF OnLine(T, col) THEN Widen(Lin(T, col, N, e, Q)) ELSE Span(T[lo][col] * Q, T[hi][col] * Q)
Val(T, col, N, e, S, Q) == IF S <= 1 THEN Lin(T, col, N, e, Q) ELSE Resampled(T, col, N, e, S, Q)
Kr(T, col, x, S) == Val(T, col, x, 1, S, 64)
Pc(T, x, S) == Val(T, 4, x, 1, S, 4096)
Kink(T, x, S) == IF S <= 1 THEN AtNode(T, x, 1) ELSE AtSample(T, x, 1, S)
\* ---------------------------------------------------------------- ranges of saturations
\* W: water-oil table or <<>>, G: gas-oil table or <<>>
Swco(W) == IF W = <<>> THEN 0 ELSE First(W)[1]
Swmax(W) == IF W = <<>> THEN Full ELSE Last(W)[1]
RangeW(W) == <<First(W)[1], Last(W)[1]>>
RangeG(G) == <<First(G)[1], Last(G)[1]>>
RangeO(W) == <<Full - Swmax(W), Full - Swco(W)>>
Within(R, s) == R[1] <= s /\ s <= R[2]
InRange(W, G, sw, so, sg) == sw + so + sg = Full /\ (W # <<>> => Within(RangeW(W), sw)) /\ (G # <<>> => Within(RangeG(G), sg)) /\ Within(RangeO(W), so)
\* ---------------------------------------------------------------- relative permeabilities <<water, oil, gas>>
TwoW(W, sw, S) == <<Kr(W, 2, sw, S), Kr(W, 3, sw, S), Zero>>
TwoG(G, sg, S) == <<Zero, Kr(G, 3, sg, S), Kr(G, 2, sg, S)>>
Simple3(W, G, sw, sg, S) == <<Kr(W, 2, sw, S), Kr(W, 3, sw + sg, S), Kr(G, 2, sg, S)>>
Stone(W, G, sw, sg, S) == LET c == First(W)[3] krw == Kr(W, 2, sw, S) krg == Kr(G, 2, sg, S)
                             a == Plus(Times(Kr(W, 3, sw + sg, S), 64, c), krw)  b == Plus(Times(Kr(G, 3, sg, S), 64, c), krg)
                             v == Minus(Minus(Prod(a, b), krw), krg) IN
    <<(v[1] * c) \div 64, CeilDiv(v[2] * c, 64)>>
Stone3(W, G, sw, sg, S) == <<Kr(W, 2, sw, S), NonNeg(Stone(W, G, sw, sg, S)), Kr(G, 2, sg, S)>>
\* water and gas segregated within the cell: a fraction n/d of it holds oil and water, the rest oil and gas
Gwseg3(W, G, sw, sg, S) == LET n == sw - Swco(W) d == n + sg IN
    IF d = 0 THEN <<Zero, Kr(G, 3, 0, S), Kr(G, 2, 0, S)>>
    ELSE <<Times(Kr(W, 2, sw + sg, S), n, d), Plus(Times(Kr(W, 3, sw + sg, S), n, d), Times(Kr(G, 3, d, S), sg, d)), Times(Kr(G, 2, d, S), sg, d)>>
Relperm(model, W, G, sw, sg, S) ==
    IF G = <<>> THEN TwoW(W, sw, S) ELSE IF W = <<>> THEN TwoG(G, sg, S)
    ELSE IF model = "simple" THEN Simple3(W, G, sw, sg, S) ELSE IF model = "stone2" THEN Stone3(W, G, sw, sg, S) ELSE Gwseg3(W, G, sw, sg, S)
\* does any of the tables used there have a corner (or the model a switch)?
Corner(model, W, G, sw, sg, S) ==
    IF G = <<>> THEN Kink(W, sw, S) ELSE IF W = <<>> THEN Kink(G, sg, S)
    ELSE IF model = "gwseg" THEN sw = Swco(W) \/ Kink(W, sw + sg, S) \/ Kink(G, sw - Swco(W) + sg, S)
    ELSE Kink(W, sw, S) \/ Kink(W, sw + sg, S) \/ Kink(G, sg, S) \/ (model = "stone2" /\ LET v == Stone(W, G, sw, sg, S) IN v[1] <= 1 /\ v[2] >= -1)
OneTable(model, W, G) == G = <<>> \/ W = <<>> \/ model = "simple"
CornerPc(W, G, sw, sg, S) == (W # <<>> /\ Kink(W, sw, S)) \/ (G # <<>> /\ Kink(G, sg, S))
CapPress(W, G, sw, sg, S) == <<IF W = <<>> THEN Zero ELSE Pc(W, sw, S), Zero, IF G = <<>> THEN Zero ELSE Pc(G, sg, S)>>
\* ---------------------------------------------------------------- end points of a water-oil table
Firsts(T, P(_)) == LET ks == {k \in 2..Len(T) : P(k)} IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A m \in ks : k <= m
Lasts(T, P(_)) == LET ks == {k \in 2..Len(T) : P(k)} IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A m \in ks : k >= m
WaterMoves(T) == Firsts(T, LAMBDA k : T[k][2] > 0)
OilMoves(T) == Lasts(T, LAMBDA k : T[k - 1][3] > 0)
TSwcr(T) == LET k == WaterMoves(T) IN IF k = 0 THEN Last(T)[1] ELSE T[k - 1][1]
TKrorw(T) == LET k == WaterMoves(T) IN IF k = 0 THEN First(T)[3] ELSE T[k - 1][3]
TSowcr(T) == LET k == OilMoves(T) IN IF k = 0 THEN Full - First(T)[1] ELSE Full - T[k][1]
TKrwr(T) == LET k == OilMoves(T) IN IF k = 0 THEN Last(T)[2] ELSE T[k][2]
EndPoints(T) == [swl |-> First(T)[1], swcr |-> TSwcr(T), swu |-> Last(T)[1], sowcr |-> TSowcr(T), krw |-> Last(T)[2], kro |-> First(T)[3], krwr |-> TKrwr(T), krorw |-> TKrorw(T)]
\* scaled end points in order
Sane(p, t) == /\ p.swl <= p.swcr /\ p.swcr < Full - p.sowcr /\ Full - p.sowcr <= p.swu /\ p.krwr <= p.krw /\ p.krorw <= p.kro
              /\ t.swl <= t.swcr /\ t.swcr < Full - t.sowcr /\ Full - t.sowcr <= t.swu /\ t.krwr > 0 /\ t.krorw > 0 /\ t.swl < t.swu
\* place <<N, e>> in the table for the scaled place s: cr -> cr', (mid -> mid',) max -> max'
Map2(s, cr, mx, tcr, tmx) == IF s <= cr THEN <<tcr, 1>> ELSE IF s >= mx THEN <<tmx, 1>> ELSE <<tcr * (mx - cr) + (s - cr) * (tmx - tcr), mx - cr>>
Map3(s, cr, md, mx, tcr, tmd, tmx) == IF s <= md THEN Map2(s, cr, md, tcr, tmd) ELSE Map2(s, md, mx, tmd, tmx)
WaterPlace(sw, p, t, three) == IF three THEN Map3(sw, p.swcr, Full - p.sowcr, p.swu, t.swcr, Full - t.sowcr, t.swu) ELSE Map2(sw, p.swcr, p.swu, t.swcr, t.swu)
OilPlace(so, p, t, three) == LET q == IF three THEN Map3(so, p.sowcr, Full - p.swcr, Full - p.swl, t.sowcr, Full - t.swcr, Full - t.swl) ELSE Map2(so, p.sowcr, Full - p.swl, t.sowcr, Full - t.swl) IN
    <<Full * q[2] - q[1], q[2]>>
\* heights: v the unscaled value at scaled place s; kmax / kmid the wanted, tmax / tmid the table's values;
\* mid = <<N, e>> the place where the other phase stops moving
Height(v, s, cr, mid, mx, kmax, kmid, tmax, tmid, gmax, gmid) ==
    IF ~gmax /\ ~gmid THEN v
    ELSE IF ~gmid THEN Times(v, kmax, tmax)
    ELSE IF s <= cr THEN Zero
    ELSE IF mid[1] >= mx * mid[2] THEN <<0, Max2(v[2], CeilDiv(v[2] * Max2(kmax, kmid), Min2(tmax, tmid)))>>
    ELSE IF s * mid[2] <= mid[1] THEN Times(v, kmid, tmid)
    ELSE IF s >= mx THEN <<kmax * 64, kmax * 64>>
    ELSE IF tmax # tmid THEN Plus(<<kmid * 64, kmid * 64>>, Times(Minus(v, <<tmid * 64, tmid * 64>>), kmax - kmid, tmax - tmid))
    ELSE LET n == (kmax - kmid) * 64 * (s * mid[2] - mid[1]) d == mx * mid[2] - mid[1] IN <<kmid * 64 + (n \div d), kmid * 64 + CeilDiv(n, d)>>
\* where in scaled saturations the middle point lies
MidW(p, t, three) == IF three THEN <<Full - p.sowcr, 1>> ELSE <<p.swcr * (t.swu - t.swcr) + (Full - t.sowcr - t.swcr) * (p.swu - p.swcr), t.swu - t.swcr>>
MidO(p, t, three) == IF three THEN <<Full - p.swcr, 1>>
    ELSE LET w == Full - t.swl - t.sowcr IN <<p.sowcr * w + (Full - t.swcr - t.sowcr) * (Full - p.swl - p.sowcr), w>>
\* given: which of the four heights are given (record of booleans krw, kro, krwr, krorw)
Scaled(T, p, given, three, sw, S) == LET t == EndPoints(T) so == Full - sw
                                       pw == WaterPlace(sw, p, t, three) po == OilPlace(so, p, t, three) IN
    <<Height(Val(T, 2, pw[1], pw[2], S, 64), sw, p.swcr, MidW(p, t, three), p.swu, p.krw, p.krwr, t.krw, t.krwr, given.krw, given.krwr),
      Height(Val(T, 3, po[1], po[2], S, 64), so, p.sowcr, MidO(p, t, three), Full - p.swl, p.kro, p.krorw, t.kro, t.krorw, given.kro, given.krorw), Zero>>
=============================================================================
