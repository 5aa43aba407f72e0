----------------------------- MODULE MCPillars -----------------------------
(* The sweep that finds the overlapping bands of two columns between two     *)
(* pillars, against the definition: every pair of bands is looked at that    *)
(* has to be, whatever the order of the lines on the two pillars.            *)
EXTENDS Pillars
CONSTANTS Depths, NCells
VARIABLES A, B, i, j, k1, k2, found, pc
mvars == <<A, B, i, j, k1, k2, found, pc>>
\* nondecreasing lists of 2 NCells depths: tops and bottoms along a pillar
Lists == {s \in [1..(2 * NCells) -> Depths] : \A q \in 1..(2 * NCells - 1) : s[q] <= s[q + 1]}
\* lines 0..2 NCells + 1, padded by lines far above and far below; band q is between lines q and q + 1, cells are the odd ones
N == 2 * NCells + 2
LinesOf(p, q) == [m \in 0..(N - 1) |-> IF m = 0 THEN <<0 - Far, 0 - Far>> ELSE IF m = N - 1 THEN <<Far, Far>> ELSE <<p[m], q[m]>>]
BandOf(X, m) == [lo |-> X[m], hi |-> X[m + 1]]
MInit == /\ A = <<>> /\ B = <<>> /\ i = 0 /\ j = 0 /\ k1 = 0 /\ k2 = 0 /\ found = {} /\ pc = "a"
ChooseA == pc = "a" /\ \E p \in Lists, q \in Lists : A' = LinesOf(p, q) /\ pc' = "b" /\ UNCHANGED <<B, i, j, k1, k2, found>>
ChooseB == pc = "b" /\ \E p \in Lists, q \in Lists : B' = LinesOf(p, q) /\ pc' = "sweep" /\ UNCHANGED <<A, i, j, k1, k2, found>>
\* one i-iteration of the sweep, over its j
Same(X, m) == X[m] = X[m + 1]
RECURSIVE Scan(_, _, _, _, _)
Scan(ii, jj, q1, q2, acc) ==
    IF jj < N - 1 /\ (B[jj][1] < A[ii + 1][1] \/ B[jj][2] < A[ii + 1][2])
    THEN IF Same(B, jj) THEN Scan(ii, jj + 1, q1, q2, acc)
         ELSE Scan(ii, jj + 1, IF B[jj][1] < A[ii + 1][1] THEN jj ELSE q1, IF B[jj][2] < A[ii + 1][2] THEN jj ELSE q2,
                   IF Meet(BandOf(A, ii), BandOf(B, jj)) THEN acc \cup {<<ii, jj>>} ELSE acc)
    ELSE [f |-> acc, q1 |-> q1, q2 |-> q2]
Sweep == /\ pc = "sweep" /\ i < N - 1
         /\ IF Same(A, i) THEN UNCHANGED <<found, k1, k2, j>>
            ELSE LET s == Scan(i, j, k1, k2, found) IN found' = s.f /\ k1' = s.q1 /\ k2' = s.q2 /\ j' = MinI(s.q1, s.q2)
         /\ i' = i + 1 /\ UNCHANGED <<A, B, pc>>
Finish == pc = "sweep" /\ i = N - 1 /\ pc' = "done" /\ UNCHANGED <<A, B, i, j, k1, k2, found>>
MNext == ChooseA \/ ChooseB \/ Sweep \/ Finish
MSpec == MInit /\ [][MNext]_mvars
\* cells of A (odd bands) against all bands of B and the other way round
CellsOf(X) == {m \in 0..(N - 2) : m % 2 = 1 /\ X[m] # X[m + 1]}
AllMeets == {p \in (0..(N - 2)) \X (0..(N - 2)) : (p[1] % 2 = 1 \/ p[2] % 2 = 1) /\ Meet(BandOf(A, p[1]), BandOf(B, p[2]))}
Complete == pc = "done" => {p \in found : p[1] % 2 = 1 \/ p[2] % 2 = 1} = AllMeets
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + SumSet(S \ {x})
\* the faces of a cell cover its side exactly
Covered == pc = "done" => \A m \in CellsOf(A) : SumSet({<<n, Area2(Dedup(Polygon(BandOf(A, m), BandOf(B, n))))>> : n \in {q \in 0..(N - 2) : Meet(BandOf(A, m), BandOf(B, q))}}) = SideArea2(BandOf(A, m))
Symmetric == pc = "done" => \A p \in AllMeets : Meet(BandOf(B, p[2]), BandOf(A, p[1])) /\ Area2(Dedup(Polygon(BandOf(A, p[1]), BandOf(B, p[2])))) = Area2(Dedup(Polygon(BandOf(B, p[2]), BandOf(A, p[1]))))
Convex == pc = "done" => \A p \in AllMeets : Len(Dedup(Polygon(BandOf(A, p[1]), BandOf(B, p[2])))) \in 3..6
=============================================================================
