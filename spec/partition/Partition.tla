----------------------------- MODULE Partition -----------------------------
(* Cell-to-block maps and the operations on them (msmfem/partition.h).      *)
(* Cells and blocks are zero-based as in the code; sequences are one-based. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE p            \* sequence: block of cell i-1

Range(s) == {s[i] : i \in DOMAIN s}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

-----------------------------------------------------------------------------
(* Uniform (load-balanced) partition of logical indices.                    *)
\* bin of position i in a direction with n positions and m bins, 1 <= m <= n:
\* the first n % m bins get one position more than the others
Bin(i, n, m) == LET L == n \div m  R == n % m
                IN IF i < R * (L + 1) THEN i \div (L + 1) ELSE (i - R) \div L

RECURSIVE Coord(_, _, _)
Coord(idx, fine, d) == IF d = 1 THEN idx % fine[1] ELSE Coord(idx \div fine[1], Tail(fine), d - 1)

RECURSIVE Lin(_, _, _)
Lin(co, coarse, d) == IF d = Len(coarse) THEN co[d] ELSE co[d] + coarse[d] * Lin(co, coarse, d + 1)

UnifBlock(idx, fine, coarse) ==
    LET co == [d \in 1..Len(fine) |-> Bin(Coord(idx, fine, d), fine[d], coarse[d])]
    IN Lin(co, coarse, 1)

Unif(fine, coarse, idx) == p' = [i \in 1..Len(idx) |-> UnifBlock(idx[i], fine, coarse)]

-----------------------------------------------------------------------------
(* Renumbering: the k-th smallest used block becomes block k-1.             *)
Rank(b) == Cardinality({c \in Range(p) : c < b})
Compress(ret) == LET used == Range(p) IN
    /\ p' = [i \in DOMAIN p |-> Rank(p[i])]
    /\ ret = Cardinality(used) - 1

-----------------------------------------------------------------------------
(* Inversion: offsets and cells per block, cells ascending within a block.  *)
IsInverse(pi, inv) ==
    LET nb == MaxOf(Range(p)) + 1 IN
    /\ Len(pi) = nb + 1 /\ Len(inv) = Len(p)
    /\ pi[1] = 0 /\ pi[nb + 1] = Len(p)
    /\ \A b \in 0..(nb - 1) :
          /\ 0 <= pi[b + 1] /\ pi[b + 1] <= pi[b + 2] /\ pi[b + 2] <= Len(p)
          /\ \A k \in (pi[b + 1] + 1)..pi[b + 2] :
                /\ inv[k] \in 0..(Len(p) - 1)
                /\ p[inv[k] + 1] = b
                /\ k > pi[b + 1] + 1 => inv[k - 1] < inv[k]
Invert(pi, inv) == UNCHANGED p /\ IsInverse(pi, inv)

IsLocal(pi, inv, loc) ==
    /\ Len(loc) = Len(p)
    /\ \A b \in 1..(Len(pi) - 1) : \A k \in (pi[b] + 1)..pi[b + 1] : loc[inv[k] + 1] = k - 1 - pi[b]
LocalIdx(pi, inv, loc) == UNCHANGED p /\ IsInverse(pi, inv) /\ IsLocal(pi, inv, loc)

-----------------------------------------------------------------------------
(* Splitting disconnected blocks along a neighbour list (pairs of cells,    *)
(* negative = outside).  Which connected part keeps the block's number is   *)
(* left open, as is the numbering of the new ones within the new range.     *)
Internal(neigh) == {i \in DOMAIN neigh : neigh[i][1] >= 0 /\ neigh[i][2] >= 0}

RECURSIVE Grow(_, _, _)
Grow(S, F, Nb) == IF F = {} THEN S
                  ELSE LET N == UNION {Nb[c] : c \in F} \ S IN Grow(S \cup N, N, Nb)

SplitOK(neigh, ret, q) ==
    LET n      == Len(p)
        maxb   == MaxOf(Range(p))
        I      == Internal(neigh)
        Blk    == [b \in Range(q) |-> {c \in 0..(n - 1) : q[c + 1] = b}]
        \* neighbours inside the same new block
        E      == {i \in I : q[neigh[i][1] + 1] = q[neigh[i][2] + 1]}
        Nb     == [c \in 0..(n - 1) |->
                     {neigh[i][2] : i \in {k \in E : neigh[k][1] = c}} \cup
                     {neigh[i][1] : i \in {k \in E : neigh[k][2] = c}}]
    IN  /\ Len(q) = n
        \* no connection inside an old block is cut
        /\ \A i \in I : p[neigh[i][1] + 1] = p[neigh[i][2] + 1] => q[neigh[i][1] + 1] = q[neigh[i][2] + 1]
        \* a new block lies in one old block and is connected
        /\ \A b \in Range(q) :
              /\ Cardinality({p[c + 1] : c \in Blk[b]}) = 1
              /\ LET s == CHOOSE c \in Blk[b] : TRUE IN Grow({s}, {s}, Nb) = Blk[b]
        \* numbering: one part of each old block keeps its number, the others get the next ones
        /\ Range(p) \subseteq Range(q)
        /\ \A b \in Range(p) : \A c \in Blk[b] : p[c + 1] = b
        /\ ret = Cardinality(Range(q)) - Cardinality(Range(p))
        /\ Range(q) \ Range(p) = (maxb + 1)..(maxb + ret)
Split(neigh, ret) == SplitOK(neigh, ret, p') /\ TRUE
=============================================================================
