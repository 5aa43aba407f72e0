--------------------------------- MODULE Vtk ---------------------------------
(* A grid written as a file of number arrays (cells as polyhedra).  A grid    *)
(* is [nodes, cells]: nodes a sequence of points, cells a sequence of         *)
(* sequences of faces, a face being a sequence of nodes (counted from 0).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RangeOf(s) == {s[i] : i \in DOMAIN s}
NodesOf(cell) == UNION {RangeOf(cell[f]) : f \in DOMAIN cell}
(* ---- what is written ---- *)
FaceTokens(face) == <<Len(face)>> \o face
CellTokens(cell) == <<Len(cell)>> \o Concat([f \in DOMAIN cell |-> FaceTokens(cell[f])])
(* ---- what a reader finds in the arrays ---- *)
RECURSIVE ReadFaces(_, _, _)
\* n faces from position p of the stream: <<faces, position after>>; stops at the end of the stream
ReadFaces(s, p, n) ==
    IF n = 0 THEN <<<<>>, p>>
    ELSE IF p > Len(s) \/ s[p] < 0 \/ p + s[p] > Len(s) THEN <<<<>>, -1>>
    ELSE LET rest == ReadFaces(s, p + s[p] + 1, n - 1) IN <<<<SubSeq(s, p + 1, p + s[p])>> \o rest[1], rest[2]>>
Start(offsets, c) == IF c = 1 THEN 0 ELSE offsets[c-1]
\* the faces of cell c, found by way of its offset; the cell's entries end where the offset says
CellAt(s, offsets, c) ==
    LET b == Start(offsets, c) + 1 IN
    IF b < 1 \/ b > Len(s) \/ s[b] < 0 \/ s[b] > Len(s) THEN [ok |-> FALSE, faces |-> <<>>]
    ELSE LET r == ReadFaces(s, b + 1, s[b]) IN [ok |-> r[2] = offsets[c] + 1, faces |-> r[1]]
PointsAt(s, offsets, c) ==
    IF Start(offsets, c) < 0 \/ offsets[c] > Len(s) THEN <<-1>> ELSE SubSeq(s, Start(offsets, c) + 1, offsets[c])
NoRepeat(s) == Cardinality(RangeOf(s)) = Len(s)
Faithful(file, cells) ==
    LET n == Len(cells) IN
    /\ Len(file.offsets) = n /\ Len(file.faceoffsets) = n /\ file.types = [c \in 1..n |-> 42]
    /\ \A c \in 1..n : LET r == CellAt(file.faces, file.faceoffsets, c) IN r.ok /\ r.faces = cells[c]
    /\ \A c \in 1..n : LET p == PointsAt(file.connectivity, file.offsets, c) IN NoRepeat(p) /\ RangeOf(p) = NodesOf(cells[c])
    /\ Len(file.faces) = Start(file.faceoffsets, n + 1) /\ Len(file.connectivity) = Start(file.offsets, n + 1)
=============================================================================
