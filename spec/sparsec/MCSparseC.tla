------------------------------ MODULE MCSparseC ------------------------------
(* The compressed representations (flat data + row starts; parallel index    *)
(* and value arrays with binary search) represent the abstract containers.   *)
EXTENDS SparseC, TLC
CONSTANTS MaxRows, MaxLen, MaxN
VARIABLES data, start, ix, vl
mv == <<tb, sv, data, start, ix, vl>>
Vals == {1, 2}
Rows == UNION {[1..k -> Vals] : k \in 0..MaxLen}
MInit == tb = (1 :> <<>>) /\ data = <<>> /\ start = <<>> /\ \E n \in 0..MaxN : sv = (1 :> Zeros(n)) /\ ix = <<>> /\ vl = <<>>
\* with a cleared start array the first row pushes the leading zero
AppendR == Len(tb[1]) < MaxRows /\ \E r \in Rows : TAppend(1, r) /\ data' = data \o r
           /\ start' = Append(IF start = <<>> THEN <<0>> ELSE start, Len(data) + Len(r)) /\ UNCHANGED <<ix, vl>>
AssignR == \E sz \in UNION {[1..k -> 0..MaxLen] : k \in 1..2} : \E d \in [1..Sum(sz) -> Vals] :
           TAssign(1, d, sz, TRUE) /\ data' = d /\ start' = [i \in 1..(Len(sz) + 1) |-> Sum(SubSeq(sz, 1, i - 1))] /\ UNCHANGED <<ix, vl>>
ClearR == TClear(1) /\ data' = <<>> /\ start' = <<>> /\ UNCHANGED <<ix, vl>>
AddV == \E i \in -1..MaxN, v \in Vals, ok \in BOOLEAN : VAdd(1, i, v, ok) /\ ix' = (IF ok THEN Append(ix, i) ELSE ix)
        /\ vl' = (IF ok THEN Append(vl, v) ELSE vl) /\ UNCHANGED <<data, start>>
ClearV == VClear(1) /\ ix' = <<>> /\ vl' = <<>> /\ UNCHANGED <<data, start>>
MNext == AppendR \/ AssignR \/ ClearR \/ AddV \/ ClearV
MSpec == MInit /\ [][MNext]_mv
RowsOf == IF start = <<>> THEN <<>> ELSE [i \in 1..(Len(start) - 1) |-> SubSeq(data, start[i] + 1, start[i + 1])]
LowerBound(i) == Cardinality({k \in DOMAIN ix : ix[k] < i}) + 1
Elem(i) == LET k == LowerBound(i) IN IF k <= Len(ix) /\ ix[k] = i THEN vl[k] ELSE 0
Represents == RowsOf = tb[1] /\ Flat(tb[1]) = data
VRepresents == \A i \in 0..(sv[1].n - 1) : Elem(i) = At(sv[1], i)
Distinct == \A a, b \in DOMAIN ix : a < b => ix[a] < ix[b]
=============================================================================
