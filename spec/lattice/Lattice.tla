------------------------------ MODULE Lattice ------------------------------
(* Cartesian and tensor-product grids.  The description is the number of     *)
(* dimensions and, per axis, the coordinates of the lattice planes; in 3D    *)
(* also a depth per vertical line that is added to all its points.  The      *)
(* lattice itself (cells, faces, nodes) and its measures follow from it.     *)
(* Coordinates are even integers, so that all midpoints are integers.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE g      \* [dim, x, y, z, dep]: coordinates along the axes, depth of line i,j at dep[1 + i + (nx+1) j]
lvars == <<g>>
N(r, a) == Len(CASE a = 1 -> r.x [] a = 2 -> r.y [] a = 3 -> r.z) - 1
Nx(r) == N(r, 1)
Ny(r) == N(r, 2)
Nz(r) == IF r.dim = 3 THEN N(r, 3) ELSE 1
Axes(r) == 1..r.dim
\* ------------------------------------------------------------ entities
Cells(r) == {<<i, j, k>> : i \in 0..(Nx(r) - 1), j \in 0..(Ny(r) - 1), k \in 0..(Nz(r) - 1)}
CellNo(r, c) == c[1] + Nx(r) * (c[2] + Ny(r) * c[3])
Inc(c, a) == [c EXCEPT ![a] = @ + 1]
Dec(c, a) == [c EXCEPT ![a] = @ - 1]
\* face <<a, i, j, k>>: the low side along axis a of cell <<i, j, k>>, which may lie one beyond the lattice
Faces(r) == UNION {{<<a, c[1], c[2], c[3]>> : c \in Cells(r) \cup {Inc(d, a) : d \in Cells(r)}} : a \in Axes(r)}
FaceCell(f) == <<f[2], f[3], f[4]>>
\* neighbours in the positive axis direction; -1 is the outside
In(r, c) == c[1] \in 0..(Nx(r) - 1) /\ c[2] \in 0..(Ny(r) - 1) /\ c[3] \in 0..(Nz(r) - 1)
Low(r, f) == LET c == Dec(FaceCell(f), f[1]) IN IF In(r, c) THEN CellNo(r, c) ELSE -1
High(r, f) == LET c == FaceCell(f) IN IF In(r, c) THEN CellNo(r, c) ELSE -1
FaceOf(c, a, side) == LET d == IF side = 0 THEN c ELSE Inc(c, a) IN <<a, d[1], d[2], d[3]>>
Tag(a, side) == 2 * (a - 1) + side
\* ------------------------------------------------------------ geometry
Dep(r, i, j) == IF r.dep = <<>> THEN 0 ELSE r.dep[1 + i + (Nx(r) + 1) * j]
Point(r, i, j, k) == IF r.dim = 2 THEN <<r.x[i + 1], r.y[j + 1]>> ELSE <<r.x[i + 1], r.y[j + 1], r.z[k + 1] + Dep(r, i, j)>>
Nodes(r) == {Point(r, i, j, k) : i \in 0..Nx(r), j \in 0..Ny(r), k \in 0..(IF r.dim = 3 THEN Nz(r) ELSE 0)}
Off(a) == <<IF a = 1 THEN 1 ELSE 0, IF a = 2 THEN 1 ELSE 0, IF a = 3 THEN 1 ELSE 0>>
\* the four corners of a 3D face, around it; the two ends of a 2D face
Corners(r, f) == LET P(u, v) == CASE f[1] = 1 -> Point(r, f[2], f[3] + u, f[4] + v)
                                  [] f[1] = 2 -> Point(r, f[2] + v, f[3], f[4] + u)
                                  [] f[1] = 3 -> Point(r, f[2] + u, f[3] + v, f[4])
                 IN  IF r.dim = 3 THEN <<P(0, 0), P(1, 0), P(1, 1), P(0, 1)>>
                     ELSE IF f[1] = 1 THEN <<Point(r, f[2], f[3], 0), Point(r, f[2], f[3] + 1, 0)>>
                     ELSE <<Point(r, f[2] + 1, f[3], 0), Point(r, f[2], f[3], 0)>>
Sub(p, q) == [i \in DOMAIN p |-> p[i] - q[i]]
Cross(p, q) == <<p[2] * q[3] - p[3] * q[2], p[3] * q[1] - p[1] * q[3], p[1] * q[2] - p[2] * q[1]>>
Half(v) == [i \in DOMAIN v |-> v[i] \div 2]
\* vector area of a loop of four points, or the normal of a segment, in the direction of its order
VecArea(pts) == IF Len(pts) = 2 THEN LET d == Sub(pts[2], pts[1]) IN <<d[2], 0 - d[1]>>
                ELSE Half(Cross(Sub(pts[3], pts[1]), Sub(pts[4], pts[2])))
Normal(r, f) == VecArea(Corners(r, f))
Planar(r, f) == r.dim = 2 \/ Sub(Corners(r, f)[2], Corners(r, f)[1]) = Sub(Corners(r, f)[3], Corners(r, f)[4])
SumSeq(s) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE s[i] + S(i - 1) IN S(Len(s))
Mean(pts) == [i \in DOMAIN pts[1] |-> SumSeq([q \in 1..Len(pts) |-> pts[q][i]]) \div Len(pts)]
Square(v) == SumSeq([i \in DOMAIN v |-> v[i] * v[i]])
Width(r, c, a) == LET s == CASE a = 1 -> r.x [] a = 2 -> r.y [] a = 3 -> r.z IN s[c[a] + 2] - s[c[a] + 1]
Volume(r, c) == IF r.dim = 2 THEN Width(r, c, 1) * Width(r, c, 2) ELSE Width(r, c, 1) * Width(r, c, 2) * Width(r, c, 3)
BoxLike(r, c) == \A a \in Axes(r) : \A s \in 0..1 : Planar(r, FaceOf(c, a, s))
CellCentre(r, c) == IF r.dim = 2 THEN Mean(<<Point(r, c[1], c[2], 0), Point(r, c[1] + 1, c[2] + 1, 0)>>)
                    ELSE Mean(<<Point(r, c[1], c[2], c[3]), Point(r, c[1] + 1, c[2] + 1, c[3] + 1)>>)
\* ------------------------------------------------------------ the grid is complete and closed
FaceCount(r) == Cardinality(Faces(r)) = IF r.dim = 2 THEN (Nx(r) + 1) * Ny(r) + Nx(r) * (Ny(r) + 1)
                                        ELSE (Nx(r) + 1) * Ny(r) * Nz(r) + Nx(r) * (Ny(r) + 1) * Nz(r) + Nx(r) * Ny(r) * (Nz(r) + 1)
EachSideOnce(r) == \A c \in Cells(r) : Cardinality({FaceOf(c, a, s) : a \in Axes(r), s \in 0..1}) = 2 * r.dim
EachFaceUsed(r) == \A f \in Faces(r) : /\ Low(r, f) # High(r, f)
                                       /\ Low(r, f) # -1 => \E c \in Cells(r) : CellNo(r, c) = Low(r, f) /\ FaceOf(c, f[1], 1) = f
                                       /\ High(r, f) # -1 => \E c \in Cells(r) : CellNo(r, c) = High(r, f) /\ FaceOf(c, f[1], 0) = f
Closed(r) == \A c \in Cells(r) : \A q \in Axes(r) :
                SumSeq([i \in 1..(2 * r.dim) |-> LET a == ((i - 1) \div 2) + 1  s == (i - 1) % 2  n == Normal(r, FaceOf(c, a, s))[q] IN IF s = 0 THEN 0 - n ELSE n]) = 0
Pointing(r) == \A f \in Faces(r) : Normal(r, f)[f[1]] > 0
WellFormed == FaceCount(g) /\ EachSideOnce(g) /\ EachFaceUsed(g) /\ Closed(g) /\ Pointing(g)
Build(r) == g' = r
\* ------------------------------------------------------------ what a grid shows
\* nodes: coordinates; faces: [c: two cells, p: node coordinates in order, n: normal, m: centroid, a2: area squared]; cells: [f: <<face, tag>>..., v: volume, m: centroid]
Range(s) == {s[i] : i \in 1..Len(s)}
Shows(r, o) ==
    LET CR == TLCEval([f \in Faces(r) |-> TLCEval(Corners(r, f))])
        FS == TLCEval(DOMAIN CR)
        FM == TLCEval([s \in {Range(CR[f]) : f \in FS} |-> CHOOSE f \in FS : Range(CR[f]) = s])
        At == TLCEval([i \in 1..Len(o.faces) |-> LET s == Range(o.faces[i].p) IN IF s \in DOMAIN FM THEN FM[s] ELSE <<0>>])
        CS == TLCEval(Cells(r))
    IN  /\ o.dim = r.dim /\ o.cart = <<Nx(r), Ny(r), Nz(r)>>
        /\ o.global = "identity"
        /\ Len(o.cells) = Cardinality(CS) /\ Len(o.faces) = Cardinality(FS)
        /\ Len(o.nodes) = Cardinality(Nodes(r)) /\ Range(o.nodes) = Nodes(r)
        /\ Range(At) = FS
        /\ \A i \in 1..Len(o.faces) : LET f == At[i]  e == o.faces[i]  n == VecArea(CR[f]) IN
              /\ e.c = <<Low(r, f), High(r, f)>>
              /\ Len(e.p) = Cardinality(Range(CR[f]))
              /\ VecArea(e.p) = n
              /\ e.n = n
              /\ Planar(r, f) => e.a2 = Square(n) /\ e.m = Mean(CR[f])
        /\ \A c \in CS : LET e == o.cells[CellNo(r, c) + 1] IN
              /\ Len(e.f) = 2 * r.dim
              /\ {<<At[e.f[i][1] + 1], e.f[i][2]>> : i \in 1..Len(e.f)} = {<<FaceOf(c, a, s), Tag(a, s)>> : a \in Axes(r), s \in 0..1}
              /\ e.v = Volume(r, c)
              /\ BoxLike(r, c) => e.m = CellCentre(r, c)
=============================================================================
