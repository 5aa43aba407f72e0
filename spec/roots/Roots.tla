------------------------------- MODULE Roots -------------------------------
(* Finding a zero of a function that is only known where it was evaluated.   *)
(* Positions are ordered marks (equal when a rounding error apart); an evaluation is <<position, sign, size>>.   *)
EXTENDS Integers, Sequences, FiniteSets

Pairs(E) == {<<p, q>> \in E \X E : p[1] <= q[1] /\ p[2] # q[2]}
\* every interval of known ends over which the sign changes
Brackets(E) == {<<b[1][1], b[1][2], b[2][1], b[2][2]>> : b \in Pairs(E)}
Inside(b, x) == b[1] <= x /\ x <= b[3]
\* evaluating inside a bracket leaves the half over which the sign changes
Cut(b, x, s) == IF s = b[2] THEN <<x, s, b[3], b[4]>> ELSE <<b[1], b[2], x, s>>
Narrowed(B, x, s) == {Cut(b, x, s) : b \in {c \in B : Inside(c, x)}}
\* a point of a bracket whose ends are both near it
Settled(B, x, near) == \E b \in B : Inside(b, x) /\ b[1] \in near /\ b[3] \in near
=============================================================================
