-------------------------------- MODULE Tof --------------------------------
(* Time of flight and tracers.  A network N has n cells (numbered from 1),   *)
(* faces <<a, b>> (0: outside) with fluxes v from a to b, pore volumes pv    *)
(* and sources src (positive: inflow).  Flow is in balance in every cell.    *)
(* Fluid that enters from a source or from outside has age zero.             *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Pos(x) == IF x > 0 THEN x ELSE 0
SumSet(S, F(_)) == LET RECURSIVE Go(_)
                       Go(W) == IF W = {} THEN 0 ELSE LET x == CHOOSE y \in W : TRUE IN F(x) + Go(W \ {x})
                   IN Go(S)

Faces(N) == 1..Len(N.faces)
From(N, f) == IF N.v[f] > 0 THEN N.faces[f][1] ELSE N.faces[f][2]
To(N, f) == IF N.v[f] > 0 THEN N.faces[f][2] ELSE N.faces[f][1]
\* faces through which fluid enters from, and leaves to, anywhere
Ins(N, c) == {f \in Faces(N) : N.v[f] # 0 /\ To(N, f) = c}
Outs(N, c) == {f \in Faces(N) : N.v[f] # 0 /\ From(N, f) = c}
Amount(N, S) == SumSet(S, LAMBDA f : Abs(N.v[f]))
\* all that leaves a cell, all that enters it
Down(N, c) == Amount(N, Outs(N, c)) + Pos(-N.src[c])
Up(N, c) == Amount(N, Ins(N, c)) + Pos(N.src[c])
Balanced(N) == \A c \in 1..N.n : Down(N, c) = Up(N, c)
Before(N, c) == {From(N, f) : f \in Ins(N, c)} \ {0}
RECURSIVE Peel(_, _)
Peel(N, S) == LET R == {c \in S : Before(N, c) \cap S = {}} IN IF R = {} THEN S ELSE Peel(N, S \ R)
HasLoop(N) == Peel(N, 1..N.n) # {}
\* the sources, in order: tracer k starts at Heads(N)[k]
RECURSIVE HeadsUpTo(_, _)
HeadsUpTo(N, c) == IF c = 0 THEN <<>> ELSE IF N.src[c] > 0 THEN Append(HeadsUpTo(N, c - 1), c) ELSE HeadsUpTo(N, c - 1)
Heads(N) == HeadsUpTo(N, N.n)

(* times T are given in Q-ths, rounded *)
\* what leaves has aged by the cell's volume
AgeOk(N, T, c, Q) ==
    Down(N, c) > 0 =>
    Abs(T[c] * Down(N, c) - N.pv[c] * Q - SumSet(Ins(N, c), LAMBDA f : IF From(N, f) = 0 THEN 0 ELSE Abs(N.v[f]) * T[From(N, f)])) <= Down(N, c) + 1
\* tracers mix on their way; a source cell holds its own
TracerOk(N, C, c, Q) ==
    LET H == Heads(N) IN
    IF N.src[c] > 0 THEN \A k \in 1..Len(H) : C[c][k] = IF H[k] = c THEN Q ELSE 0
    ELSE Down(N, c) > 0 =>
         \A k \in 1..Len(H) : Abs(C[c][k] * Down(N, c) - SumSet(Ins(N, c), LAMBDA f : IF From(N, f) = 0 THEN 0 ELSE Abs(N.v[f]) * C[From(N, f)][k])) <= Down(N, c) + 1

(* Multidimensional upwinding: the age at a face blends, for each of the     *)
(* cell's faces that touch it (near), the age that came in through that face *)
(* and the cell's own, by their flows.                                       *)
FaceAge(N, T, F, f) ==
    LET u == From(N, f)  q == Abs(N.v[f])
        in(a) == IF a \in Ins(N, u) THEN Abs(N.v[a]) ELSE 0
        K == 1..Len(N.near[f])
    IN IF N.v[f] = 0 \/ u = 0 THEN 0
       ELSE SumSet(K, LAMBDA k : (in(N.near[f][k]) * F[N.near[f][k]] + q * T[u]) \div (in(N.near[f][k]) + q)) \div Len(N.near[f])
SpreadOk(N, T, F, c, Q) ==
    Down(N, c) > 0 =>
    Abs(T[c] * Pos(-N.src[c]) + SumSet(Outs(N, c), LAMBDA f : Abs(N.v[f]) * F[f])
        - N.pv[c] * Q - SumSet(Ins(N, c), LAMBDA f : Abs(N.v[f]) * F[f])) <= Down(N, c) * (3 * N.n + 3) + 1
=============================================================================
