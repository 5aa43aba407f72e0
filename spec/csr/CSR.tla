-------------------------------- MODULE CSR --------------------------------
(* Two-pass construction of compressed sparse matrices (sparse_sys.h).      *)
(* The abstract state is one bag of columns per row (kept as the sequence   *)
(* in which they were pushed), whether rows are sorted, and one value per   *)
(* stored entry; the arrays ia/ja/sa are its representation.                *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES m, counts, rows, vals, sorted, phase
\* phase: "count" -> "fill" -> "ready"

RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Start(cs, i) == Sum(cs, i - 1)                    \* offset of row i (1-based)
BagOf(s) == [x \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = x})]
Row(ia, ja, i) == SubSeq(ja, ia[i] + 1, ia[i + 1])
IsSorted(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]

Create(mm, ia, nnz) == /\ m' = mm /\ counts' = [i \in 1..mm |-> 0] /\ rows' = [i \in 1..mm |-> <<>>]
                       /\ vals' = <<>> /\ sorted' = FALSE /\ phase' = "count"
                       /\ nnz = 0 /\ Len(ia) = mm + 1 /\ \A k \in DOMAIN ia : ia[k] = 0
\* the user announces cs[i] more entries for row i, in ia[i + 1]
CountAll(cs) == /\ phase = "count" /\ DOMAIN cs = 1..m /\ counts' = cs
                /\ UNCHANGED <<m, rows, vals, sorted, phase>>
\* offsets: the start of row i is held in ia[i + 1] until the row is filled
Fix(ret, nnz, ia) == /\ phase = "count" /\ phase' = "fill"
                     /\ ret = Sum(counts, m) /\ nnz = ret
                     /\ Len(ia) = m + 1 /\ ia[1] = 0
                     /\ \A i \in 1..m : ia[i + 1] = Start(counts, i)
                     /\ UNCHANGED <<m, counts, rows, vals, sorted>>
\* the user pushed the rows rs[i] through ia[i + 1]
Filled(rs, ia, ja) ==
    /\ phase = "fill" /\ phase' = "ready" /\ rows' = rs
    /\ \A i \in 1..m : Len(rs[i]) = counts[i]
    /\ ia = [k \in 1..(m + 1) |-> Sum(counts, k - 1)]
    /\ Len(ja) = Sum(counts, m)
    /\ \A i \in 1..m : Row(ia, ja, i) = rs[i]
    /\ vals' = <<>> /\ UNCHANGED <<m, counts, sorted>>
\* allocation with known size: the user supplies everything
Known(mm, rs) == /\ m' = mm /\ rows' = rs /\ counts' = [i \in 1..mm |-> Len(rs[i])] /\ vals' = <<>>
                 /\ sorted' = FALSE /\ phase' = "ready"
SameStructure(ia, ja) ==
    /\ ia = [k \in 1..(m + 1) |-> Sum(counts, k - 1)]
    /\ Len(ja) = Sum(counts, m)
    /\ \A i \in 1..m : Row(ia, ja, i) = rows[i]
SortRows(ia, ja) ==
    /\ phase = "ready"
    /\ ia = [k \in 1..(m + 1) |-> Sum(counts, k - 1)]
    /\ Len(ja) = Sum(counts, m)
    /\ \A i \in 1..m : IsSorted(Row(ia, ja, i)) /\ BagOf(Row(ia, ja, i)) = BagOf(rows[i])
    /\ rows' = [i \in 1..m |-> Row(ia, ja, i)] /\ sorted' = TRUE
    /\ UNCHANGED <<m, counts, vals, phase>>
\* position of entry (i, j): inside row i, holding j (rows and columns from 0)
IsIndex(i, j, k) ==
    /\ sorted /\ k >= Start(counts, i + 1) /\ k < Start(counts, i + 2)
    /\ rows[i + 1][k - Start(counts, i + 1) + 1] = j
Zero(ia, ja, sa) == /\ phase = "ready" /\ SameStructure(ia, ja) /\ Len(sa) = Sum(counts, m)
                    /\ \A k \in DOMAIN sa : sa[k] = 0
                    /\ vals' = sa /\ UNCHANGED <<m, counts, rows, sorted, phase>>
SetVals(sa) == /\ phase = "ready" /\ Len(sa) = Sum(counts, m) /\ vals' = sa
               /\ UNCHANGED <<m, counts, rows, sorted, phase>>
\* one line per entry, rows in order, one-based indices
Listing == LET ii(k) == CHOOSE i \in 1..m : Start(counts, i) < k /\ k <= Start(counts, i + 1)
           IN [k \in 1..Sum(counts, m) |-> <<ii(k), rows[ii(k)][k - Start(counts, ii(k))] + 1, vals[k]>>]
=============================================================================
