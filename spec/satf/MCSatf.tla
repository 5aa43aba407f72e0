------------------------------- MODULE MCSatf -------------------------------
(* A cell whose saturations move under a choice of tables and models.       *)
EXTENDS Satf
CONSTANTS Step
VARIABLES cfg, sw, sg
vars == <<cfg, sw, sg>>
Wt == << <<<<0, 0, 64, 6>>, <<64, 16, 16, 3>>, <<128, 64, 0, 0>>>>,
         <<<<16, 0, 48, 5>>, <<48, 0, 40, 4>>, <<80, 24, 8, 2>>, <<104, 40, 0, 1>>, <<128, 64, 0, 0>>>>,
         <<<<32, 0, 64, 9>>, <<64, 8, 24, 2>>, <<96, 32, 0, 0>>>> >>
Gt == << <<<<0, 0, 64, 0>>, <<64, 24, 8, 2>>, <<128, 64, 0, 5>>>>,
         <<<<0, 0, 48, 0>>, <<24, 0, 32, 1>>, <<80, 40, 0, 2>>, <<112, 60, 0, 3>>>>,
         <<<<0, 0, 64, 0>>, <<32, 16, 16, 1>>, <<96, 64, 0, 4>>>> >>
Cfgs == [model : {"simple", "stone2", "gwseg"}, w : {0, 1, 2, 3}, g : {0, 1, 2, 3}, S : {0, 9}]
GoodCfg(c) == (c.w # 0 \/ c.g # 0) /\ (c.w # 0 /\ c.g # 0 => c.w = c.g) /\ (c.w = 0 => c.g = 1)
W(c) == IF c.w = 0 THEN <<>> ELSE Wt[c.w]
G(c) == IF c.g = 0 THEN <<>> ELSE Gt[c.g]
Ok(c, a, b) == a >= 0 /\ b >= 0 /\ a + b <= Full /\ (c.w = 0 => a = 0) /\ (c.g = 0 => b = 0) /\ InRange(W(c), G(c), a, Full - a - b, b)
MInit == cfg \in {c \in Cfgs : GoodCfg(c)} /\ sw = Swco(W(cfg)) /\ sg = 0
WaterIn == sw' = sw + Step /\ UNCHANGED <<cfg, sg>> /\ Ok(cfg, sw', sg)
GasIn == sg' = sg + Step /\ UNCHANGED <<cfg, sw>> /\ Ok(cfg, sw, sg')
GasByWater == sw' = sw + Step /\ sg' = sg - Step /\ UNCHANGED cfg /\ Ok(cfg, sw', sg')
MNext == WaterIn \/ GasIn \/ GasByWater
MSpec == MInit /\ [][MNext]_vars
K(a, b) == Relperm(cfg.model, W(cfg), G(cfg), a, b, cfg.S)
\* phases never flow better than alone nor worse than not at all
Bounded == \A ph \in 1..3 : LET v == K(sw, sg)[ph] IN v[1] <= v[2] /\ v[2] >= 0 /\ v[1] >= -2 /\ v[1] <= 4096
Meet(I, J) == I[1] <= J[2] + 6 /\ J[1] <= I[2] + 6
\* with only two phases there the three-phase models agree with the two tables
TwoPhase == (cfg.w # 0 /\ cfg.g # 0) =>
    /\ sg = 0 => (Meet(K(sw, sg)[1], Kr(W(cfg), 2, sw, cfg.S)) /\ (cfg.model # "gwseg" \/ sw > Swco(W(cfg)) => Meet(K(sw, sg)[2], Kr(W(cfg), 3, sw, cfg.S))))
    /\ sw = Swco(W(cfg)) => (Meet(K(sw, sg)[3], Kr(G(cfg), 2, sg, cfg.S)) /\ (cfg.model = "gwseg" => Meet(K(sw, sg)[2], Kr(G(cfg), 3, sg, cfg.S))))
\* replacing oil by water or gas never helps oil, nor hurts the phase coming in
NoHelp == [][ (cfg.S = 0 /\ cfg.model # "gwseg" /\ sw + sg < sw' + sg') =>
    /\ (cfg.model = "simple" => K(sw', sg')[2][1] <= K(sw, sg)[2][2] + 1)
    /\ (sw' > sw => K(sw', sg')[1][2] + 1 >= K(sw, sg)[1][1]) /\ (sg' > sg => K(sw', sg')[3][2] + 1 >= K(sw, sg)[3][1]) ]_vars
\* resampled tables give their nodes back where a sample lies on them and surround the exact value otherwise
Resampling == (cfg.S > 0 /\ cfg.w # 0) => LET T == W(cfg) IN
    /\ Meet(Kr(T, 3, First(T)[1], cfg.S), <<64 * First(T)[3], 64 * First(T)[3]>>)
    /\ Meet(Kr(T, 2, sw, cfg.S), Kr(T, 2, sw, 0))
\* end-point scaling
Ps == {p \in [swl : {8, 32}, swcr : {16, 40, 48}, swu : {112, 128}, sowcr : {16, 24, 40}, krw : {32, 64}, kro : {64}, krwr : {16, 24, 32}, krorw : {8, 40}] : TRUE}
Given == [krw : BOOLEAN, kro : BOOLEAN, krwr : BOOLEAN, krorw : BOOLEAN]
Eff(p, g, t) == [p EXCEPT !.krw = IF g.krw THEN @ ELSE t.krw, !.kro = IF g.kro THEN @ ELSE t.kro, !.krwr = IF g.krwr THEN @ ELSE t.krwr, !.krorw = IF g.krorw THEN @ ELSE t.krorw]
ScalingOf(n) == LET T == Wt[n] t == EndPoints(T) IN \A p0 \in Ps, g \in Given, three \in BOOLEAN : LET p == Eff(p0, g, t) K2(s) == Scaled(T, p, g, three, s, 0) IN Sane(p, t) =>
    /\ Meet(K2(p.swcr)[1], Zero) /\ ((three /\ Full - p.sowcr = p.swu) \/ Meet(K2(p.swu)[1], <<64 * (IF g.krw \/ g.krwr THEN p.krw ELSE t.krw), 64 * (IF g.krw \/ g.krwr THEN p.krw ELSE t.krw)>>))
    /\ Meet(K2(Full - p.sowcr)[2], Zero) /\ ((three /\ p.swcr = p.swl) \/ Meet(K2(p.swl)[2], <<64 * (IF g.kro \/ g.krorw THEN p.kro ELSE t.kro), 64 * (IF g.kro \/ g.krorw THEN p.kro ELSE t.kro)>>))
    /\ (three /\ g.krwr) => Meet(K2(Full - p.sowcr)[1], <<64 * p.krwr, 64 * p.krwr>>)
    /\ (three /\ g.krorw) => Meet(K2(p.swcr)[2], <<64 * p.krorw, 64 * p.krorw>>)
Identity(n) == LET T == Wt[n] t == EndPoints(T) N == [krw |-> FALSE, kro |-> FALSE, krwr |-> FALSE, krorw |-> FALSE] IN
    \A three \in BOOLEAN, k \in 0..16 : LET s == 8 * k IN Within(RangeW(T), s) => Meet(Scaled(T, t, N, three, s, 0)[1], Kr(T, 2, s, 0)) /\ Meet(Scaled(T, t, N, three, s, 0)[2], Kr(T, 3, s, 0))
ASSUME \A n \in 2..3 : Identity(n) /\ Sane(EndPoints(Wt[n]), EndPoints(Wt[n]))
ASSUME ScalingOf(2) /\ ScalingOf(3)
=============================================================================
