------------------------------ MODULE MCTables ------------------------------
(* Growth by doubling, as the tables do it, refines appending to a sequence: *)
(* the array keeps its first n entries whatever the capacity becomes, and    *)
(* the entries after n are never observable, also after clearing.            *)
EXTENDS Tables, TLC
CONSTANTS Vals, MaxLen, Junk
VARIABLES arr, n, cpty
mv == <<tabs, grid, arr, n, cpty>>
Id == 1
MInit == tabs = (Id :> None) /\ grid = 0 /\ arr = <<>> /\ n = 0 /\ cpty = 0
DoCreate == tabs[Id] = None /\ \E c \in 0..2 : Create(Id, "t", 1) /\ n' = 0 /\ cpty' = c /\ arr' = [i \in 1..c |-> Junk]
Grown == IF n = cpty THEN (IF cpty > 0 THEN 2 * cpty ELSE 1) ELSE cpty
DoAppend == tabs[Id] # None /\ n < MaxLen /\ \E v \in Vals :
            /\ AppendRow(Id, 1, v, 1)
            /\ cpty' = Grown /\ n' = n + 1
            /\ arr' = [[i \in 1..Grown |-> IF i <= cpty THEN arr[i] ELSE Junk] EXCEPT ![n + 1] = v]
DoRefuse == tabs[Id] # None /\ AppendRow(Id, 2, 0, -1) /\ UNCHANGED <<arr, n, cpty>>
DoClear == tabs[Id] # None /\ Clear(Id) /\ n' = 0 /\ UNCHANGED <<arr, cpty>>
DoDestroy == tabs[Id] # None /\ Destroy(Id) /\ n' = 0 /\ cpty' = 0 /\ arr' = <<>>
MNext == DoCreate \/ DoAppend \/ DoRefuse \/ DoClear \/ DoDestroy
MSpec == MInit /\ [][MNext]_mv
Represents == tabs[Id].rows = SubSeq(arr, 1, n)
Room == n <= cpty /\ Len(arr) = cpty
=============================================================================
