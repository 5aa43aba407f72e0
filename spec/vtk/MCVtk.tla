-------------------------------- MODULE MCVtk --------------------------------
(* Cells are written one after the other; the reader must find the grid in    *)
(* what was written so far, and nothing else.                                 *)
EXTENDS Vtk
CONSTANTS Nodes, MaxCells, MaxFaces
VARIABLES cells, cur, file
vars == <<cells, cur, file>>
FaceSet == {f \in UNION {[1..k -> 0..(Nodes-1)] : k \in 2..3} : NoRepeat(f) /\ \A i \in 1..Len(f) : f[1] <= f[i]}
Init == cells = <<>> /\ cur = <<>> /\ file = [connectivity |-> <<>>, offsets |-> <<>>, faces |-> <<>>, faceoffsets |-> <<>>, types |-> <<>>]
AddFace == Len(cur) < MaxFaces /\ Len(cells) < MaxCells /\ (\E f \in FaceSet : cur' = Append(cur, f)) /\ UNCHANGED <<cells, file>>
\* the points of a cell in any order
SetToSeqs(S) == {s \in [1..Cardinality(S) -> S] : NoRepeat(s)}
EndCell == /\ cur # <<>> /\ cells' = Append(cells, cur) /\ cur' = <<>>
           /\ \E p \in SetToSeqs(NodesOf(cur)) :
              file' = [connectivity |-> file.connectivity \o p, offsets |-> Append(file.offsets, Len(file.connectivity) + Len(p)),
                       faces |-> file.faces \o CellTokens(cur), faceoffsets |-> Append(file.faceoffsets, Len(file.faces) + Len(CellTokens(cur))),
                       types |-> Append(file.types, 42)]
Next == AddFace \/ EndCell
Spec == Init /\ [][Next]_vars
Written == Faithful(file, cells)
\* the file determines the grid: no other reading of it is a faithful one
Unique == \A c \in DOMAIN cells : \A d \in DOMAIN cells : (CellAt(file.faces, file.faceoffsets, c).faces = cells[d]) <=> (cells[c] = cells[d])
\* damage to one number is noticed
Damaged == \A k \in {"faces", "faceoffsets", "offsets", "connectivity"} : \A i \in DOMAIN file[k] :
              ~Faithful([file EXCEPT ![k][i] = @ + 1], cells)
=============================================================================
