------------------------------ MODULE Columns ------------------------------
(* Vertical columns of a structured grid (grid/ColumnExtract.hpp).          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES pos,      \* sequence: <<i, j, k>> of each cell
          adj       \* set of <<c, d>>: cells sharing a face (both orders)

Cells == 0..(Len(pos) - 1)
IJ(c) == <<pos[c + 1][1], pos[c + 1][2]>>
K(c)  == pos[c + 1][3]
Range(s) == {s[i] : i \in DOMAIN s}
\* d is the next cell below c at the same horizontal position
NextBelow(c, d) == /\ IJ(c) = IJ(d) /\ K(c) < K(d)
                   /\ ~\E x \in Cells : IJ(x) = IJ(c) /\ K(c) < K(x) /\ K(x) < K(d)

IsColumns(cols) ==
    /\ \A q \in DOMAIN cols : cols[q] # <<>>
    /\ UNION {Range(cols[q]) : q \in DOMAIN cols} = Cells
    /\ LET len[i \in 0..Len(cols)] == IF i = 0 THEN 0 ELSE len[i - 1] + Len(cols[i]) IN len[Len(cols)] = Len(pos)
    \* inside a column: consecutive cells are vertical successors sharing a face
    /\ \A q \in DOMAIN cols : \A i \in 1..(Len(cols[q]) - 1) :
          LET c == cols[q][i]  d == cols[q][i + 1] IN <<c, d>> \in adj /\ NextBelow(c, d)
    \* maximal: no connected successor starts another column
    /\ LET lasts == {cols[q][Len(cols[q])] : q \in DOMAIN cols}
           firsts == {cols[q][1] : q \in DOMAIN cols}
       IN \A c \in lasts : \A d \in firsts : ~(<<c, d>> \in adj /\ IJ(c) = IJ(d) /\ NextBelow(c, d))
=============================================================================
