------------------------------ MODULE MCCoarse ------------------------------
EXTENDS Coarse, TLC
CONSTANTS NC, NF, MaxB
vars == <<part, neigh, done, faces>>
Pairs == {<<a, b>> \in ((-1)..(NC - 1)) \X ((-1)..(NC - 1)) : a >= 0 \/ b >= 0}
Contig(p) == Range(p) = 0..(Cardinality(Range(p)) - 1)
MInit == /\ part \in [1..NC -> 0..MaxB] /\ Contig(part)
         /\ neigh \in [1..NF -> Pairs] /\ done = 0 /\ faces = [k \in {} |-> {}]
MNext == TakeFace
MSpec == MInit /\ [][MNext]_vars
\* taking the fine faces one by one ends in the declarative coarse grid
Complete == done = Len(neigh) => faces = AllFaces
\* every fine face between different blocks is in exactly one coarse face, others in none
Exactly == \A f \in 0..(done - 1) :
    Cardinality({k \in DOMAIN faces : f \in faces[k]}) = (IF Crosses(neigh[f + 1]) THEN 1 ELSE 0)
Between == \A k \in DOMAIN faces : k[1] \in 0..(NumBlocks - 1) /\ k[2] \in (-1)..(NumBlocks - 1) /\ (k[2] = -1 \/ k[1] < k[2])
=============================================================================
