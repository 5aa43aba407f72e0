----------------------------- MODULE TraceSatf -----------------------------
(* Recorded saturation functions against Satf.                              *)
EXTENDS Satf, TraceLib
VARIABLES i, d
tvars == <<i, d>>
Ev == Log[i]
Names == <<"swl", "swcr", "swu", "sowcr", "krw", "kro", "krwr", "krorw">>
Acts(e) == {k \in 1..3 : e.used[k]}
\* ------------------------------------------------------------ which decks are refused
Cells(e) == 1..Len(e.cart)
Region(e, c) == IF e.sat = <<>> THEN 1 ELSE e.sat[e.cart[c] + 1]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Needed(e) == MaxOf({Region(e, c) : c \in Cells(e)})
Named(e) == IF e.sat = <<>> THEN 1 ELSE MaxOf({e.sat[k] : k \in DOMAIN e.sat})
BadPhases(e) == ~e.used[2] \/ Cardinality(Acts(e)) < 2
Few(e, n) == (e.used[1] /\ Len(e.swof) < n) \/ (e.used[3] /\ Len(e.sgof) < n)
Uneven(e) == e.used[1] /\ e.used[3] /\ Len(e.swof) # Len(e.sgof)
BadTable(e) == \/ e.used[1] /\ e.model = "simple" /\ \E k \in DOMAIN e.swof : First(e.swof[k])[2] # 0 \/ Last(e.swof[k])[3] # 0
               \/ e.used[3] /\ \E k \in DOMAIN e.sgof : Last(e.sgof[k])[1] + (IF e.used[1] THEN First(e.swof[k])[1] ELSE 0) # Full
BadScaling(e) == e.eps.on /\ (e.model # "simple" \/ e.used[3] \/ ~e.used[1] \/ e.eps.dir # "NODIR" \/ e.eps.rev # "REVERS")
BadModel(e) == e.model \notin {"simple", "stone2", "gwseg"}
MustRefuse(e) == BadPhases(e) \/ Few(e, Needed(e)) \/ Uneven(e) \/ BadTable(e) \/ BadScaling(e) \/ BadModel(e)
MayRefuse(e) == MustRefuse(e) \/ Few(e, Named(e))
\* ------------------------------------------------------------ end points of a cell
W(c) == IF d.used[1] THEN d.swof[Region(d, c)] ELSE <<>>
G(c) == IF d.used[3] THEN d.sgof[Region(d, c)] ELSE <<>>
Column(e, c, nm) == IF e.eps.vd = <<>> THEN <<>> ELSE e.eps.vd[Region(e, c)][nm]
AtDepth(z, zs, vs, dflt) == IF z < zs[1] \/ z > zs[Len(zs)] THEN dflt
    ELSE LET k == IF z = zs[Len(zs)] THEN Len(zs) - 1 ELSE CHOOSE m \in 1..(Len(zs) - 1) : zs[m] <= z /\ z < zs[m + 1] IN vs[k] + (((vs[k + 1] - vs[k]) * (z - zs[k])) \div (zs[k + 1] - zs[k]))
Par(e, c, nm, dflt) == IF e.eps.key[nm] # <<>> THEN e.eps.key[nm][e.cart[c] + 1]
    ELSE IF Column(e, c, nm) # <<>> THEN AtDepth(e.z[c], e.eps.vd[Region(e, c)].z, Column(e, c, nm), dflt) ELSE dflt
GivenAt(e, nm) == e.eps.key[nm] # <<>> \/ (e.eps.vd # <<>> /\ \E r \in DOMAIN e.eps.vd : e.eps.vd[r][nm] # <<>>)
Pars(e, c) == LET t == EndPoints(W(c)) IN [nm \in {Names[k] : k \in 1..8} |-> Par(e, c, nm, t[nm])]
Givens(e) == [nm \in {"krw", "kro", "krwr", "krorw"} |-> GivenAt(e, nm)]
\* ------------------------------------------------------------ one point
Order(e) == SelectSeq(<<1, 2, 3>>, LAMBDA k : e.used[k])
Near(I, x) == I[1] - 1 <= x /\ x <= I[2] + 1
Abs(x) == IF x < 0 THEN -x ELSE x
OPos(e) == IF e.used[1] THEN 2 ELSE 1
\* directions: one of the other phases grows at the cost of oil
Dirs(e) == [k \in 1..(Len(Order(e)) - 1) |-> IF k < OPos(e) THEN k ELSE k + 1]
Along(e, D, row, k) == LET np == Len(Order(e)) IN D[row + (Dirs(e)[k] - 1) * np] - D[row + (OPos(e) - 1) * np]
Finite(x) == x > -2000000000
SlopesOk(e, q, D, fd, fw, bw, smooth, hull) == LET np == Len(Order(e)) IN
    \A k \in 1..(np - 1), row \in 1..np : LET x == Along(e, D, row, k) n == row + (k - 1) * np IN
        /\ \A m \in 1..(np * np) : Finite(D[m])
        /\ smooth => Abs(x - fd[n]) <= 6 + (Abs(fd[n]) \div 256)
        /\ hull => (Min2(fw[n], bw[n]) - 6 - (Abs(fw[n]) \div 256) <= x /\ x <= Max2(fw[n], bw[n]) + 6 + (Abs(bw[n]) \div 256))
KrOk(e, q) == LET w == W(q.c) g == G(q.c) act == Order(e) kr == Relperm(e.model, w, g, q.s[1], q.s[3], e.S) IN
    InRange(w, g, q.s[1], q.s[2], q.s[3]) =>
    /\ \A k \in 1..Len(act) : Near(kr[act[k]], q.kr[k]) /\ Near(kr[act[k]], q.kr2[k])
    /\ SlopesOk(e, q, q.D, q.fd, q.fw, q.bw, ~Corner(e.model, w, g, q.s[1], q.s[3], e.S), OneTable(e.model, w, g))
PcOk(e, q) == LET w == W(q.c) g == G(q.c) act == Order(e) pc == CapPress(w, g, q.s[1], q.s[3], e.S) IN
    InRange(w, g, q.s[1], q.s[2], q.s[3]) =>
    /\ \A k \in 1..Len(act) : Near(pc[act[k]], q.pc[k]) /\ Near(pc[act[k]], q.pc2[k])
    /\ SlopesOk(e, q, q.Dp, q.fdp, q.fwp, q.bwp, ~CornerPc(w, g, q.s[1], q.s[3], e.S), TRUE)
ScaledOk(e, q) == LET w == W(q.c) t == EndPoints(w) p == Pars(e, q.c) IN
    (Sane(p, t) /\ p.swl <= q.s[1] /\ q.s[1] <= p.swu /\ q.s[1] + q.s[2] = Full) =>
    LET kr == Scaled(w, p, Givens(e), e.eps.three, q.s[1], e.S) IN Near(kr[1], q.kr[1]) /\ Near(kr[2], q.kr[2])
PointOk(e, q) == IF e.eps.on THEN ScaledOk(e, q) ELSE KrOk(e, q) /\ PcOk(e, q)
RangeOk(e, q) == LET act == Order(e) w == W(q.c) g == G(q.c) R(ph) == IF ph = 1 THEN RangeW(w) ELSE IF ph = 2 THEN RangeO(w) ELSE RangeG(g) IN
    \A k \in 1..Len(act) : q.lo[k] = R(act[k])[1] /\ q.hi[k] = R(act[k])[2]
\* ------------------------------------------------------------ actions
TDeck == /\ Ev.e = "deck"
         /\ (IF Ev.accepted THEN ~MustRefuse(Ev) /\ Ev.np = Cardinality(Acts(Ev)) ELSE MayRefuse(Ev)) = TRUE
         /\ d' = Ev
TPoints == /\ Ev.e = "points" /\ d.accepted
           /\ Len(Ev.pts) = Ev.n
           /\ (\A k \in 1..Len(Ev.pts) : PointOk(d, Ev.pts[k])) = TRUE
           /\ UNCHANGED d
TRange == /\ Ev.e = "range" /\ d.accepted
          /\ Len(Ev.pts) = Ev.n
          /\ (d.eps.on \/ \A k \in 1..Len(Ev.pts) : RangeOk(d, Ev.pts[k])) = TRUE
          /\ UNCHANGED d
\* curves given by name: constant, linear and quadratic, without capillary pressure
BasicRefused(e) == e.np \notin 1..2 \/ e.func \notin {"Constant", "Linear", "Quadratic"} \/ (e.func = "Constant" /\ e.np # 1)
BasicKr(f, s) == IF f = "Constant" THEN 16384 ELSE IF f = "Linear" THEN 128 * s ELSE s * s
BasicD(f, s) == IF f = "Constant" THEN 0 ELSE IF f = "Linear" THEN 128 ELSE 2 * s
TBasic == /\ Ev.e = "basic"
          /\ (Ev.accepted = ~BasicRefused(Ev)) = TRUE
          /\ (Ev.accepted => /\ Ev.phases = Ev.np /\ Len(Ev.s) = Ev.n * Ev.np
                             /\ \A k \in 1..Len(Ev.s) : /\ Ev.kr[k] = BasicKr(Ev.func, Ev.s[k]) /\ Ev.kr2[k] = Ev.kr[k]
                                                        /\ Ev.pc[k] = 0 /\ Ev.pc2[k] = 0 /\ Ev.lo[k] = 0 /\ Ev.hi[k] = 128
                             /\ \A k \in 0..(Ev.n - 1), r, c \in 1..Ev.np : LET m == k * Ev.np * Ev.np + (c - 1) * Ev.np + r IN
                                    Ev.D[m] = (IF r = c THEN BasicD(Ev.func, Ev.s[k * Ev.np + c]) ELSE 0) /\ Ev.Dp[m] = 0) = TRUE
          /\ UNCHANGED d
TEof == Ev.e = "eof" /\ UNCHANGED d
TInit == i = 1 /\ d = [accepted |-> FALSE]
TNext == i <= LogLen /\ i' = i + 1 /\ (TDeck \/ TPoints \/ TRange \/ TBasic \/ TEof)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
