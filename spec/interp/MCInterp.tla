------------------------------ MODULE MCInterp ------------------------------
(* A table that grows by single points and is scaled, chopped and shrunk.    *)
EXTENDS Interp, TLC
CONSTANTS MaxPoints, MaxOps, MaxVal
VARIABLES D, ops
vars == <<D, ops>>
Init == D = <<>> /\ ops = 0
Xs == {0, 1, 2, 4}
Ok == ops < MaxOps
Add == Ok /\ ops' = ops + 1 /\ \E x \in Xs, f \in 0..MaxVal : D' = Insert(D, <<x, f>>) /\ Len(D') <= MaxPoints
Scale == Ok /\ ops' = ops + 1 /\ D # <<>> /\ \E k \in {-1, 0, 2} : D' = Scaled(D, k)
Chop == Ok /\ ops' = ops + 1 /\ \E e \in 1..2 : D' = Chopped(D, e) /\ D' # D
Shrink == Ok /\ ops' = ops + 1 /\ \E e \in 1..2 : D' = Shrunk(D, e) /\ D' # D
Next == Add \/ Scale \/ Chop \/ Shrink
Spec == Init /\ [][Next]_vars
Ordered == \A i \in 1..(Len(D) - 1) : D[i][1] < D[i+1][1]
I == 1..(Len(D) - 1)
M == Slopes(D)
Known(i) == M[i] # Unknown /\ M[i+1] # Unknown
\* the cubic goes through the nodes, and joins without a kink
Nodes == \A i \in I : Known(i) => Cubic(D, M, i, 0) = 512 * D[i][2] /\ Cubic(D, M, i, 4) = 512 * D[i+1][2]
\* with monotone data it never turns
Steady == (Len(D) > 1 /\ Monotone(D)) => \A i \in I : Known(i) => \A k \in 0..3 :
            IF Rising(D) THEN Cubic(D, M, i, k) <= Cubic(D, M, i, k + 1) ELSE Cubic(D, M, i, k) >= Cubic(D, M, i, k + 1)
Straight == Len(D) > 1 => \A q \in (-2)..18 : \E i \in I : Holds(D, q, i) /\ \A j \in I : Holds(D, q, j) => Line(D, q, i) = Line(D, q, j)
ChoppedEnds == LET C == Chopped(D, 1) IN Len(D) > 2 => Len(C) < 3 \/ (C[1][2] # C[2][2] /\ C[Len(C)][2] # C[Len(C)-1][2])
Sharpened == (Len(D) > 1 /\ Monotone(D)) => LET S == Shrunk(D, 1) IN Strictly(S) /\ (Rising(D) => Rising(S)) /\ (Falling(D) => Falling(S))
=============================================================================
