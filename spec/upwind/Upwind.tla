------------------------------- MODULE Upwind -------------------------------
(* What crosses the faces of a network of cells during a transport step.     *)
(* Every phase moves with the mobility of the cell upstream of that phase.   *)
EXTENDS Integers, Sequences, FiniteSets

SumSet(S, F(_)) == LET RECURSIVE Go(_)
                       Go(T) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN F(t) + Go(T \ {t})
                   IN Go(S)
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b

(* ------------------- two phases and gravity on one face ------------------- *)
\* Mobilities a = <<water, oil>> on the first side, b on the second; total flux d
\* and gravity flux g from first to second.  Water moves with d + mo*g, oil with d - mw*g.
\* A pair (u, v) of sides is an upstream choice when each phase really comes from its
\* side; what both forces drive one way comes from there, however immobile it is.
Choice(a, b, d, g, u, v) ==
    LET mw == (IF u = 1 THEN a ELSE b)[1]
        mo == (IF v = 1 THEN a ELSE b)[2]
        any == d # 0 \/ g # 0
    IN /\ IF u = 1 THEN d + mo * g >= 0 ELSE d + mo * g <= 0
       /\ IF v = 1 THEN d - mw * g >= 0 ELSE d - mw * g <= 0
       /\ (any /\ d >= 0 /\ g >= 0 => u = 1) /\ (any /\ d <= 0 /\ g <= 0 => u = 2)
       /\ (any /\ d >= 0 /\ g <= 0 => v = 1) /\ (any /\ d <= 0 /\ g >= 0 => v = 2)
\* The water flux of a choice, times R (a multiple of every sum of mobilities).
FluxOf(a, b, d, g, u, v, R) ==
    LET mw == (IF u = 1 THEN a ELSE b)[1]
        mo == (IF v = 1 THEN a ELSE b)[2]
    IN IF mw + mo = 0 THEN 0 ELSE mw * (d + mo * g) * (R \div (mw + mo))
FaceFluxes(a, b, d, g, R) ==
    {FluxOf(a, b, d, g, c[1], c[2], R) : c \in {c \in (1..2) \X (1..2) : Choice(a, b, d, g, c[1], c[2])}}
WaterFlux(a, b, d, g, R) == CHOOSE x \in FaceFluxes(a, b, d, g, R) : TRUE

\* The network: P.faces = <<a,b>> pairs (0 is outside), P.mob, P.d, P.g per face, P.src per cell.
Inner(P) == {f \in 1..Len(P.faces) : P.faces[f][1] > 0 /\ P.faces[f][2] > 0}
Cross(P, f, R) == WaterFlux(P.mob[P.faces[f][1]], P.mob[P.faces[f][2]], P.d[f], P.g[f], R)
NetOut(P, c, R) == SumSet({f \in Inner(P) : P.faces[f][1] = c}, LAMBDA f : Cross(P, f, R))
                 - SumSet({f \in Inner(P) : P.faces[f][2] = c}, LAMBDA f : Cross(P, f, R))
\* What is injected, of which the share inj (in R-ths) is water, or produced at the cell's own fraction.
Source(P, c, R) == IF P.src[c] > 0 THEN P.src[c] * P.inj[c]
                   ELSE IF P.src[c] = 0 THEN 0 ELSE P.src[c] * P.mob[c][1] * (R \div (P.mob[c][1] + P.mob[c][2]))
\* Content after an explicit step (unit pore volumes), and the imbalance of an implicit one, times R.
Explicit(P, s0, c, R) == s0[c] + P.dt * (Source(P, c, R) - NetOut(P, c, R))
Residual(P, ds, c, R) == P.pv[c] * ds[c] - P.dt * (Source(P, c, R) - NetOut(P, c, R))

(* How the imbalance changes with the contents: P.dmob per cell, P.dg per face and side. *)
Choices(P, f) == LET a == P.mob[P.faces[f][1]]  b == P.mob[P.faces[f][2]]
                 IN {c \in (1..2) \X (1..2) : Choice(a, b, P.d[f], P.g[f], c[1], c[2])}
\* No phase on the verge of turning: the flux is smooth there.
Settled(P) == \A f \in Inner(P) :
    \/ P.d[f] = 0 /\ P.g[f] = 0 /\ P.dg[f] = <<0, 0>>
    \/ \A c \in Choices(P, f) : P.d[f] + P.mob[P.faces[f][c[2]]][2] * P.g[f] # 0 /\ P.d[f] - P.mob[P.faces[f][c[1]]][1] * P.g[f] # 0
\* Change of the flux of face f with the content of its side k, times R^2.
Slope(P, f, k, R) ==
    LET c == CHOOSE c \in Choices(P, f) : TRUE
        mw == P.mob[P.faces[f][c[1]]][1]
        mo == P.mob[P.faces[f][c[2]]][2]
        h == R \div (mw + mo)
    IN IF mw + mo = 0 THEN 0
       ELSE (IF c[1] = k THEN mo * h * (P.d[f] + mo * P.g[f]) * h * P.dmob[P.faces[f][k]][1] ELSE 0)
          - (IF c[2] = k THEN mw * h * (P.d[f] - mw * P.g[f]) * h * P.dmob[P.faces[f][k]][2] ELSE 0)
          + mw * mo * h * R * P.dg[f][k]
Jacobian(P, c, e, R) ==
    LET out(f) == IF P.faces[f][1] = c THEN 1 ELSE -1
        of(f) == {k \in 1..2 : P.faces[f][k] = e}
        m == P.mob[c]
        h == R \div (m[1] + m[2])
    IN P.dt * SumSet({f \in Inner(P) : c \in {P.faces[f][1], P.faces[f][2]} /\ of(f) # {}},
                     LAMBDA f : out(f) * SumSet(of(f), LAMBDA k : Slope(P, f, k, R)))
       + (IF c # e THEN 0
          ELSE P.pv[c] * R * R
               - (IF P.src[c] >= 0 THEN 0 ELSE P.dt * P.src[c] * (m[2] * P.dmob[c][1] - m[1] * P.dmob[c][2]) * h * h))

(* ----------------- one phase fraction carried with the flow ---------------- *)
\* Q: one unit of saturation.  N.v fluxes, N.q sources, N.pv0, N.pv pore volumes,
\* N.b expansion of water, f: water fraction of what leaves each cell.
InOf(N, c) == {f \in Inner(N) : (N.faces[f][1] = c /\ N.v[f] < 0) \/ (N.faces[f][2] = c /\ N.v[f] > 0)}
OutOf(N, c) == {f \in Inner(N) : (N.faces[f][1] = c /\ N.v[f] > 0) \/ (N.faces[f][2] = c /\ N.v[f] < 0)}
Other(N, f, c) == IF N.faces[f][1] = c THEN N.faces[f][2] ELSE N.faces[f][1]
Carried(N, f, F, Q) == LET up == IF N.v[f] > 0 THEN N.faces[f][1] ELSE N.faces[f][2] IN N.b[up] * F[up] * Abs(N.v[f])
Throughput(N, c) == SumSet(InOf(N, c) \cup OutOf(N, c), LAMBDA f : Abs(N.v[f])) + Abs(N.q[c])
\* Change of water content minus what came in and plus what left.
Imbalance(N, z0, S, F, c, Q) ==
    N.pv[c] * N.b[c] * S[c] - N.pv0[c] * z0[c]
    - N.dt * (SumSet(InOf(N, c), LAMBDA f : Carried(N, f, F, Q)) - SumSet(OutOf(N, c), LAMBDA f : Carried(N, f, F, Q))
              + (IF N.q[c] > 0 THEN N.q[c] * Q ELSE N.b[c] * F[c] * N.q[c]))
\* the cells downstream of c; c lies on a loop of the flow if it is one of them
Below(N, c) == LET RECURSIVE G(_)
                   G(S) == LET T == S \cup {d \in 1..N.nc : \E x \in S : \E f \in OutOf(N, x) : Other(N, f, x) = d}
                           IN IF T = S THEN S ELSE G(T)
               IN G({d \in 1..N.nc : \E f \in OutOf(N, c) : Other(N, f, c) = d})
HasLoop(N) == \E c \in 1..N.nc : c \in Below(N, c)

(* ----------------- vertical segregation in a column of cells --------------- *)
\* gf[k]: what drives water from cell k of the column towards cell k+1 (may be
\* negative); mw, mo: mobilities in the cells after the step.
Exchange(mw, mo, gf, k) ==
    LET w == mw[IF gf[k] > 0 THEN k ELSE k + 1]
        o == mo[IF gf[k] > 0 THEN k + 1 ELSE k]
    IN IF gf[k] = 0 \/ w + o = 0 THEN 0 ELSE (w * o) \div (w + o)
Gain(mw, mo, gf, k) == (IF k > 1 THEN gf[k-1] * Exchange(mw, mo, gf, k-1) ELSE 0)
                     - (IF k < Len(mw) THEN gf[k] * Exchange(mw, mo, gf, k) ELSE 0)
Drive(gf, k) == (IF k > 1 THEN Abs(gf[k-1]) ELSE 0) + (IF k <= Len(gf) THEN Abs(gf[k]) ELSE 0)
=============================================================================
