------------------------------- MODULE MCCSR -------------------------------
(* The count/fix/fill protocol on the arrays: with the row starts parked in *)
(* ia[i + 1], pushing every announced entry, in any order over the rows,    *)
(* leaves exactly the pushed rows, and the offsets in their final place.    *)
EXTENDS CSR, TLC
CONSTANTS M, Cols, MaxNnz
VARIABLES ia, ja
mv == <<m, counts, rows, vals, sorted, phase, ia, ja>>
MInit == m = M /\ counts = [i \in 1..M |-> 0] /\ rows = [i \in 1..M |-> <<>>] /\ vals = <<>> /\ sorted = FALSE
         /\ phase = "count" /\ ia = [k \in 1..(M + 1) |-> 0] /\ ja = <<>>
Announce == phase = "count" /\ Sum(counts, M) < MaxNnz /\ \E i \in 1..M :
            counts' = [counts EXCEPT ![i] = @ + 1] /\ ia' = [ia EXCEPT ![i + 1] = @ + 1]
            /\ UNCHANGED <<m, rows, vals, sorted, phase, ja>>
RECURSIVE Shift(_, _)      \* the code's in-place loop over i = 1..m (ia[1] accumulates)
Shift(a, i) == IF i > M THEN [a EXCEPT ![1] = 0]
               ELSE LET t == a[1] + a[i + 1] IN Shift([a EXCEPT ![1] = t, ![i + 1] = t - a[i + 1]], i + 1)
DoFix == phase = "count" /\ Sum(counts, M) > 0 /\ ia' = Shift(ia, 1)
         /\ Fix(Sum(counts, M), Sum(counts, M), ia') /\ ja' = [k \in 1..Sum(counts, M) |-> -1]
DoPush == phase = "fill" /\ \E i \in 1..M, c \in Cols :
          /\ Len(rows[i]) < counts[i]
          /\ rows' = [rows EXCEPT ![i] = Append(@, c)]
          /\ ja' = [ja EXCEPT ![ia[i + 1] + 1] = c] /\ ia' = [ia EXCEPT ![i + 1] = @ + 1]
          /\ UNCHANGED <<m, counts, vals, sorted, phase>>
MNext == Announce \/ DoFix \/ DoPush
MSpec == MInit /\ [][MNext]_mv
Complete == phase = "fill" /\ \A i \in 1..M : Len(rows[i]) = counts[i]
Layout == Complete => SameStructure(ia, ja)
Protocol == phase = "fill" => \A i \in 1..M : ia[i + 1] = Start(counts, i) + Len(rows[i])
=============================================================================
