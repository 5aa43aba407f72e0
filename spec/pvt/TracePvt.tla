------------------------------ MODULE TracePvt ------------------------------
(* Recorded fluid properties against Pvt.  Phases in the log are numbered   *)
(* 1 water, 2 oil, 3 gas; act lists the active ones in order of position.   *)
EXTENDS Pvt, TraceLib
VARIABLES i, d
tvars == <<i, d>>
Ev == Log[i]
None == [k |-> "missing"]
\* ------------------------------------------------------------ which decks are refused
Acts(e) == {k \in 1..3 : e.used[k]}
Refused(e) == \/ ~e.used[2] \/ Cardinality(Acts(e)) < 2 \/ ~e.hasdens \/ e.regions > 1
              \/ e.tab[2].k = "missing" \/ (e.used[3] /\ e.tab[3].k = "missing")
              \/ (e.tab[2].k = "live" /\ ~Full(e.tab[2].recs[Len(e.tab[2].recs)]))
Table(e, ph) == IF ph = 1 /\ e.tab[1].k = "missing" THEN Default ELSE e.tab[ph]
Order(e) == SelectSeq(<<1, 2, 3>>, LAMBDA k : e.used[k])
\* ------------------------------------------------------------ one point
Pos(act, ph) == CHOOSE k \in 1..Len(act) : act[k] = ph
PointOk(e, q) == LET act == Order(e) n == e.samples np == Len(act) IN
    /\ Len(q.f) = np
    /\ \A k \in 1..np : LET T == Table(e, act[k]) ph == act[k] IN
        /\ Allowed(FV(T, ph, q.p, q.zl, q.zv, n), q.f[k])
        /\ q.f2[k] = q.f[k]
        /\ Allowed(MV(T, ph, q.p, q.zl, q.zv, n), q.m[k])
        /\ Allowed(DV(T, ph, q.p, q.zl, q.zv, n), q.df[k])
        /\ Allowed(RV(T, ph, q.p, q.zl, q.zv), q.r[k])
        /\ q.r2[k] = q.r[k]
        /\ Allowed(RD(T, ph, q.p, q.zl, q.zv), q.dr[k])
\* the matrix of phase contents: column j holds what a reservoir volume of phase j becomes, times B of phase j
Entry(e, row, col, R, one) == LET act == Order(e) IN
    IF row = col THEN one
    ELSE IF act[row] = 3 /\ act[col] = 2 THEN R[col]
    ELSE IF act[row] = 2 /\ act[col] = 3 THEN R[col] ELSE 0
MatrixOk(e, q) == LET np == Len(Order(e)) IN
    /\ \A row, col \in 1..np : /\ q.A[(col - 1) * np + row] = Entry(e, row, col, q.r, 64)
                               /\ q.A2[(col - 1) * np + row] = Entry(e, row, col, q.r, 64)
                               /\ q.dA[(col - 1) * np + row] = Entry(e, row, col, q.dr, 0)
\* densities: sdens in whole kg/m3; log: rho * B * 64
Dens(e) == LET act == Order(e) IN [k \in 1..Len(act) |-> e.dens[IF act[k] = 1 THEN 2 ELSE IF act[k] = 2 THEN 1 ELSE 3]]
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
DensityOk(e, q) == LET np == Len(Order(e)) IN \A col \in 1..np : q.rho[col] = SumTo([row \in 1..np |-> Entry(e, row, col, q.r, 64) * Dens(e)[row]], np)
\* ------------------------------------------------------------ actions
TDeck == /\ Ev.e = "deck"
         /\ (Ev.accepted = ~Refused(Ev)) = TRUE
         /\ (Ev.accepted => (Ev.np = Cardinality(Acts(Ev)) /\ Ev.sdens = Dens(Ev))) = TRUE
         /\ d' = Ev
TPoints == /\ Ev.e = "points" /\ d.accepted
           /\ Len(Ev.pts) = Ev.n
           /\ (\A k \in 1..Len(Ev.pts) : PointOk(d, Ev.pts[k])) = TRUE
           /\ (\A k \in 1..Len(Ev.pts) : MatrixOk(d, Ev.pts[k]) /\ DensityOk(d, Ev.pts[k])) = TRUE
           /\ UNCHANGED d
\* incompressible fluids: reservoir densities at the reference volume factors, both scaled by 128
IncompRefused(e) == e.used # <<TRUE, TRUE, FALSE>> \/ ~e.hasdens \/ e.tab[1].k = "missing" \/ e.tab[2].k # "const"
TIncomp == /\ Ev.e = "incomp"
           /\ (Ev.accepted = ~IncompRefused(Ev)) = TRUE
           /\ (Ev.accepted => /\ Ev.np = 2 /\ Ev.sdens = <<Ev.dens[2], Ev.dens[1]>>
                              /\ Ev.rho = <<Ev.dens[2] * Ev.tab[1].b, Ev.dens[1] * Ev.tab[2].b>>
                              /\ Ev.imu = <<Ev.tab[1].v, Ev.tab[2].v>>) = TRUE
           /\ UNCHANGED d
\* fluids given as parameters
Basic(x, dflt, n) == [k \in 1..n |-> IF x[k] < 0 THEN dflt ELSE x[k]]
TBasic == /\ Ev.e = "basic"
          /\ (Ev.accepted = (Ev.np \in 1..3)) = TRUE
          /\ (Ev.accepted => /\ Ev.phases = Ev.np /\ Ev.sdens = Basic(Ev.rho, 1000, Ev.np)
                             /\ \A k \in 1..Ev.n : /\ Ev.mus[k] = Basic(Ev.mu, 1, Ev.np) /\ Ev.B[k] = [q \in 1..Ev.np |-> 1] /\ Ev.B2[k] = [q \in 1..Ev.np |-> 1]
                                                   /\ Ev.zero[k] = [q \in 1..(4 * Ev.np) |-> 0]) = TRUE
          /\ UNCHANGED d
TBasicProps == /\ Ev.e = "basicprops"
               /\ (/\ Ev.phases = Ev.np /\ Ev.sdens = Basic(Ev.rho, 1000, Ev.np) /\ Ev.incdens = Ev.sdens /\ Ev.incsdens = Ev.sdens /\ Ev.incmu = Basic(Ev.mu, 1, Ev.np)
                   /\ \A k \in 1..Ev.n : /\ Ev.mus[k] = Basic(Ev.mu, 1, Ev.np) /\ Ev.A[k] = [q \in 1..(Ev.np * Ev.np) |-> IF (q - 1) % (Ev.np + 1) = 0 THEN 1 ELSE 0]
                                         /\ Ev.dA[k] = [q \in 1..(Ev.np * Ev.np) |-> 0] /\ Ev.dens[k] = Ev.sdens) = TRUE
               /\ UNCHANGED d
TInit == i = 1 /\ d = None
TNext == i <= LogLen /\ i' = i + 1 /\ (TDeck \/ TPoints \/ TIncomp \/ TBasic \/ TBasicProps \/ (Ev.e = "eof" /\ UNCHANGED d))
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
