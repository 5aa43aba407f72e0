------------------------------ MODULE TraceVtk ------------------------------
EXTENDS Vtk, TraceLib
VARIABLES l
vars == <<l>>
Ev == Log[l]
Tiny == -1999999999
Shown(x) == IF x = Tiny THEN 0 ELSE x
Base == <<"VTKFile", "UnstructuredGrid", "Piece">>
At(path, name) == {i \in DOMAIN Ev.arrays : Ev.arrays[i].path = path /\ Ev.arrays[i].name = name}
One(path, name) == Cardinality(At(path, name)) = 1
Arr(path, name) == Ev.arrays[CHOOSE i \in At(path, name) : TRUE]
Cells == Append(Base, "Cells")
TopologyOk == /\ \A n \in {"connectivity", "offsets", "faces", "faceoffsets", "types"} : One(Cells, n)
              /\ LET A(n) == Arr(Cells, n).vals IN
                 Faithful([connectivity |-> A("connectivity"), offsets |-> A("offsets"), faces |-> A("faces"), faceoffsets |-> A("faceoffsets"), types |-> A("types")], Ev.cells)
PointsOk == /\ One(Append(Base, "Points"), "Coordinates")
            /\ LET P == Arr(Append(Base, "Points"), "Coordinates") IN P.ncomp = 3 /\ P.vals = Ev.points
Data == Append(Base, "CellData")
DataOk == /\ \A d \in DOMAIN Ev.data : /\ One(Data, Ev.data[d].name)
                                       /\ LET A == Arr(Data, Ev.data[d].name) IN
                                          /\ Len(Ev.cells) > 0 => A.ncomp = Ev.data[d].ncomp
                                          /\ A.vals = [i \in DOMAIN Ev.data[d].vals |-> Shown(Ev.data[d].vals[i])]
          \* the shown array, if any, is one of those written
          /\ Ev.scalars = "" \/ \E d \in DOMAIN Ev.data : Ev.data[d].name = Ev.scalars
          /\ (\E d \in DOMAIN Ev.data : Ev.data[d].name = "saturation") => Ev.scalars = "saturation"
Unstructured == IF Ev.dim # 3 THEN Ev.threw
                ELSE /\ ~Ev.threw /\ Ev.wellformed /\ Ev.kind = "UnstructuredGrid"
                     /\ Ev.npoints = Len(Ev.points) \div 3 /\ Ev.ncells = Len(Ev.cells)
                     /\ Len(Ev.arrays) = 6 + Len(Ev.data) /\ \A i \in DOMAIN Ev.arrays : Ev.arrays[i].ascii
                     /\ PointsOk /\ TopologyOk /\ DataOk
\* boxes: the corner, the sizes and the first number of every cell
Product == Ev.dims[1] * Ev.dims[2] * Ev.dims[3]
Structured == /\ ~Ev.threw /\ Ev.wellformed /\ Ev.shown = [i \in 1..3 |-> Ev.dims[i] + 1]
              /\ Ev.origin = <<0, 0, 0>> /\ Ev.spacing = Ev.size /\ Ev.ncells = Product
              /\ Len(Ev.arrays) = Len(Ev.data)
              /\ \A d \in DOMAIN Ev.data : LET S == Ev.data[d] IN
                   \E a \in DOMAIN Ev.arrays : Ev.arrays[a].name = S.name /\ Ev.arrays[a].vals = [c \in 1..Product |-> S.vals[(c-1) * S.ncomp + 1]]
TInit == l = 1
TNext == l <= LogLen /\ l' = l + 1 /\
    (CASE Ev.e = "unstructured" -> Unstructured
       [] Ev.e = "structured" -> Structured
       [] OTHER -> FALSE) = TRUE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
