------------------------------- MODULE Coarse -------------------------------
(* The coarse grid induced by a partition (msmfem/coarse_conn.h): one coarse *)
(* face per pair of touching blocks and per block touching the outside.      *)
(* Blocks, cells and faces are zero-based; outside is -1.                    *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES part,      \* sequence: block of each cell
          neigh,     \* sequence of <<c1, c2>>: cells of each fine face
          done,      \* number of fine faces taken in so far
          faces      \* coarse face key <<b_in, b_out>> -> set of fine faces

Range(s) == {s[i] : i \in DOMAIN s}
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a
NumBlocks == IF part = <<>> THEN 0 ELSE (CHOOSE b \in Range(part) : \A c \in Range(part) : c <= b) + 1
Blk(c) == IF c < 0 THEN -1 ELSE part[c + 1]

\* lower block first; a block before the outside
Key(pr) == LET b1 == Blk(pr[1])  b2 == Blk(pr[2]) IN
           IF b1 >= 0 /\ b2 >= 0 THEN <<MinI(b1, b2), MaxI(b1, b2)>>
           ELSE IF b1 >= 0 THEN <<b1, -1>> ELSE <<b2, -1>>
Crosses(pr) == Key(pr)[1] # Key(pr)[2]

\* one fine face at a time, as the code does
TakeFace ==
    /\ done < Len(neigh)
    /\ done' = done + 1
    /\ LET pr == neigh[done + 1]  k == Key(pr) IN
       faces' = IF ~Crosses(pr) THEN faces
                ELSE IF k \in DOMAIN faces THEN [faces EXCEPT ![k] = @ \cup {done}]
                ELSE [x \in DOMAIN faces \cup {k} |-> IF x = k THEN {done} ELSE faces[x]]
    /\ UNCHANGED <<part, neigh>>

\* the declarative counterpart
AllFaces == LET C == {f \in 1..Len(neigh) : Crosses(neigh[f])}
                ky == [f \in C |-> Key(neigh[f])]
            IN [k \in {ky[f] : f \in C} |-> {f - 1 : f \in {g \in C : ky[g] = k}}]

-----------------------------------------------------------------------------
(* A returned topology t represents the coarse grid.                        *)
Keys(t) == [i \in 1..t.nfaces |-> <<t.neighbours[2 * i - 1], t.neighbours[2 * i]>>]
SubSeqSet(v, a, b) == {v[i] : i \in (a + 1)..b}
Offsets(pos, n, total) ==
    /\ Len(pos) = n + 1 /\ pos[1] = 0 /\ pos[n + 1] = total
    /\ \A i \in 1..n : pos[i] <= pos[i + 1]
Represents(t, wantsub) ==
    LET A == AllFaces  K == Keys(t) IN
    /\ t.nblocks = NumBlocks
    /\ t.nfaces = Cardinality(DOMAIN A)
    /\ Len(t.neighbours) = 2 * t.nfaces
    /\ {K[i] : i \in 1..t.nfaces} = DOMAIN A            \* with the count: each exactly once
    /\ Offsets(t.blkfacepos, t.nblocks, Len(t.blkfaces))
    /\ \A b \in 0..(t.nblocks - 1) :
          LET own == SubSeqSet(t.blkfaces, t.blkfacepos[b + 1], t.blkfacepos[b + 2]) IN
          /\ own = {i - 1 : i \in {j \in 1..t.nfaces : K[j][1] = b \/ K[j][2] = b}}
          /\ Cardinality(own) = t.blkfacepos[b + 2] - t.blkfacepos[b + 1]
    /\ t.hassub = (wantsub /\ t.nfaces > 0)
    /\ t.hassub =>
          /\ Offsets(t.subfacepos, t.nfaces, Len(t.subfaces))
          /\ \A i \in 1..t.nfaces :
                LET sub == SubSeqSet(t.subfaces, t.subfacepos[i], t.subfacepos[i + 1]) IN
                /\ sub = A[K[i]]
                /\ Cardinality(sub) = t.subfacepos[i + 1] - t.subfacepos[i]
=============================================================================
