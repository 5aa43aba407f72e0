----------------------------- MODULE TraceUpwind -----------------------------
EXTENDS Upwind, TraceLib
VARIABLE l
vars == <<l>>
Ev == Log[l]
R == 60
Opt(r, f, d) == IF Has(r, f) THEN r[f] ELSE d
Exact(a, b) == IF a % b = 0 THEN a \div b ELSE Assert(FALSE, "inexact input")
Harm(h) == Exact(h[1] * h[2], h[1] + h[2])
Cells == 1..Ev.nc
\* the drive of a face: given, or by weight difference and capillary pressures over its transmissibility
Drop(f) == LET a == Ev.faces[f][1]  b == Ev.faces[f][2]
           IN Harm(Ev.half[f]) * (Ev.weight * (Ev.z[b] - Ev.z[a]) + Ev.pc[b] - Ev.pc[a])
DDrop(f) == LET a == Ev.faces[f][1]  b == Ev.faces[f][2] IN <<-(Harm(Ev.half[f]) * Ev.dpc[a]), Harm(Ev.half[f]) * Ev.dpc[b]>>
Real == Inner([faces |-> Ev.faces])
Net == LET F == 1..Len(Ev.faces) IN
    [nc |-> Ev.nc, faces |-> Ev.faces, d |-> Ev.d, src |-> Ev.src, dt |-> Ev.dt,
     g |-> IF Has(Ev, "g") THEN Ev.g ELSE [f \in F |-> IF f \in Real THEN Drop(f) ELSE 0],
     dg |-> IF Has(Ev, "g") THEN [f \in F |-> <<0, 0>>] ELSE [f \in F |-> IF f \in Real THEN DDrop(f) ELSE <<0, 0>>],
     inj |-> Opt(Ev, "inj", [c \in Cells |-> R]), pv |-> Opt(Ev, "pv", [c \in Cells |-> 1])]
With(m) == Net @@ [mob |-> m]
\* one explicit step
Explained == LET P == With(Ev.mob) IN \A c \in Cells : Ev.got[c] = Explicit(P, Ev.s0, c, R)
\* one assembly of the imbalance, and of how it changes with the contents
Assembled ==
    LET P == With(Ev.mob) @@ [dmob |-> Ev.dmob]
    IN /\ \A c \in Cells : Ev.res[c] = Residual(P, Ev.ds, c, R)
       /\ Settled(P) => \A c \in Cells, e \in Cells : Ev.jac[c][e] = Jacobian(P, c, e, R)
\* a whole iteration: every system assembled is the imbalance at the contents of that moment, the answers are
\* subtracted within the limits, and the reported imbalance is that of the last one.
Table(t, x) == LET i == ((x - Ev.x0) * Ev.parts) \div R IN t[(IF x < Ev.x0 THEN 0 ELSE IF i >= Len(t) THEN Len(t) - 1 ELSE i) + 1]
MobAt(x) == [c \in Cells |-> <<Table(Ev.tab[1], x[c]), Table(Ev.tab[2], x[c])>>]
\* inside the tables the fractions change along the segment to the next node
Node(x) == ((x - Ev.x0) * Ev.parts) \div R
Within(x) == \A c \in Cells : x[c] >= Ev.x0 /\ Node(x[c]) + 2 <= Len(Ev.tab[1])
Rise(t, i) == (t[i+2] - t[i+1]) * Ev.parts
RiseAt(x) == [c \in Cells |-> <<Rise(Ev.tab[1], Node(x[c])), Rise(Ev.tab[2], Node(x[c]))>>]
Clip(x) == IF x < 0 THEN 0 ELSE IF x > R THEN R ELSE x
Biggest(r) == CHOOSE m \in {Abs(r[c]) : c \in Cells} : \A c \in Cells : Abs(r[c]) <= m
Iterated ==
    LET n == Len(Ev.at) IN
    /\ n >= 1 /\ Ev.at[1] = Ev.start
    /\ \A k \in 1..n : /\ Ev.b[k] = [c \in Cells |-> Residual(With(MobAt(Ev.at[k])), [x \in Cells |-> Ev.at[k][x] - Ev.s0[x]], c, R)]
                       /\ Within(Ev.at[k]) => LET P == With(MobAt(Ev.at[k])) @@ [dmob |-> RiseAt(Ev.at[k])]
                                              IN Settled(P) => \A c \in Cells, e \in Cells : Ev.jac[k][c][e] = Jacobian(P, c, e, R)
                       /\ (IF k < n THEN Ev.at[k+1] ELSE Ev.got) = [c \in Cells |-> Clip(Ev.at[k][c] - Ev.x[k][c])]
    /\ Ev.norm = Biggest(Ev.b[n])
    /\ n = 20 \/ Ev.norm = 0
\* a whole implicit step along a flow field, up to the last digit
Flow == [faces |-> Ev.faces, nc |-> Ev.nc, v |-> Ev.v, q |-> Ev.q, dt |-> Ev.dt, pv0 |-> Ev.pv0, b |-> Ev.b,
         pv |-> IF Has(Ev, "pv") THEN Ev.pv
                ELSE LET N == [faces |-> Ev.faces, v |-> Ev.v, nc |-> Ev.nc] IN
                     [c \in Cells |-> Ev.pv0[c] + Ev.dt * (Ev.q[c] + SumSet(InOf(N, c), LAMBDA f : Abs(Ev.v[f])) - SumSet(OutOf(N, c), LAMBDA f : Abs(Ev.v[f])))]]
Stepped ==
    IF ~Ev.ok THEN Ev.may /\ HasLoop(Flow)
    ELSE \A c \in Cells :
           /\ Ev.S[c] \in 0..Ev.Q /\ Abs(Ev.O[c] + Ev.S[c] - Ev.Q) <= 1
           /\ Abs(Imbalance(Flow, Ev.z0, Ev.S, Ev.F, c, Ev.Q)) <= (Flow.pv[c] * Ev.b[c] + Ev.dt * Throughput(Flow, c) * Ev.slope + 3) * Ev.slack
           /\ Has(Ev, "zw") => Abs(Ev.zw[c] - Ev.b[c] * Ev.S[c]) <= Ev.b[c] + 1 /\ Abs(Ev.zo[c] - Ev.bo[c] * Ev.O[c]) <= Ev.bo[c] + 1
\* segregation in columns (w: the weight difference of half a cell's height)
ColumnOk(C) ==
    LET gf == [k \in 1..(Len(C.K) - 1) |-> Exact(2 * C.K[k] * C.K[k+1] * (C.w[k] + C.w[k+1]), C.K[k] + C.K[k+1]) * C.down]
        n == Len(C.K)
    IN /\ \A k \in 1..n : /\ C.S[k] \in 0..Ev.Q /\ Abs(C.O[k] + C.S[k] - Ev.Q) <= 1
                          /\ Abs(C.pv[k] * (C.S[k] - C.S0[k]) - Ev.dt * Gain(C.mw, C.mo, gf, k)) <= C.pv[k] + 4 * Ev.dt * Drive(gf, k) + 2
Settling == Ev.ok /\ \A i \in DOMAIN Ev.columns : ColumnOk(Ev.columns[i])
\* a whole implicit step with weight: what crosses each face by the mobilities after the step (in Q-ths)
FluxQ(f) ==
    LET a == Ev.faces[f][1]  b == Ev.faces[f][2]  g == Exact(Ev.half[f][1] * Ev.half[f][2] * Ev.weight * (Ev.z[b] - Ev.z[a]), Ev.half[f][1] + Ev.half[f][2])
        ma == <<Ev.mw[a], Ev.mo[a]>>  mb == <<Ev.mw[b], Ev.mo[b]>>
        c == CHOOSE c \in (1..2) \X (1..2) : Choice(ma, mb, Ev.v[f] * Ev.Q, g, c[1], c[2])
        w == (IF c[1] = 1 THEN ma ELSE mb)[1]  o == (IF c[2] = 1 THEN ma ELSE mb)[2]
    IN IF w + o = 0 THEN 0 ELSE (w * (Ev.v[f] * Ev.Q + o * g)) \div (w + o)
Sunk == LET I == Real IN \A c \in Cells :
    /\ Ev.S[c] \in 0..Ev.Q /\ Abs(Ev.O[c] + Ev.S[c] - Ev.Q) <= 1
    /\ Abs(Ev.pv[c] * (Ev.S[c] - Ev.z0[c])
           - Ev.dt * (IF Ev.q[c] > 0 THEN Ev.q[c] * Ev.Q ELSE Ev.F[c] * Ev.q[c])
           + Ev.dt * (SumSet({f \in I : Ev.faces[f][1] = c}, FluxQ) - SumSet({f \in I : Ev.faces[f][2] = c}, FluxQ)))
         <= Ev.pv[c] + Ev.dt * SumSet({f \in I : c \in {Ev.faces[f][1], Ev.faces[f][2]}}, LAMBDA f : 4 * (Abs(Ev.v[f]) + 3 * Abs(Ev.weight)) + 1) + 2 * Abs(Ev.q[c])
TInit == l = 1
TNext == l <= LogLen /\ l' = l + 1 /\
    CASE Ev.e = "explicit" -> Explained
      [] Ev.e = "assemble" -> Assembled
      [] Ev.e = "iterate"  -> Iterated
      [] Ev.e = "step"     -> Stepped
      [] Ev.e = "sink"     -> Sunk
      [] Ev.e = "settle"   -> Settling
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
