----------------------------- MODULE MCColumns -----------------------------
(* Bucketing, sorting and splitting, as transitions, for all subsets of a   *)
(* small lattice and all vertical connectivities.                           *)
EXTENDS Columns, TLC
CONSTANTS NI, NK
VARIABLES i, cols, stage
vars == <<pos, adj, i, cols, stage>>
Lattice == {<<a, 0, k>> : a \in 0..(NI - 1), k \in 0..(NK - 1)}
RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o q : q \in Perms(S \ {x})} : x \in S}
Vert(p) == {<<c, d>> \in (0..(Len(p) - 1)) \X (0..(Len(p) - 1)) : p[c + 1][1] = p[d + 1][1] /\ p[c + 1][3] < p[d + 1][3]}
Sym(E) == E \cup {<<e[2], e[1]>> : e \in E}
MInit == /\ \E S \in SUBSET Lattice : S # {} /\ pos \in Perms(S)
         /\ \E E \in SUBSET Vert(pos) : adj = Sym(E)
         /\ i = 1 /\ cols = <<>> /\ stage = "bucket"
Bucket == /\ stage = "bucket" /\ i <= Len(pos)
          /\ LET c == i - 1
                 hit == {q \in DOMAIN cols : IJ(cols[q][1]) = IJ(c)} IN
             cols' = IF hit = {} THEN Append(cols, <<c>>)
                     ELSE LET q == CHOOSE x \in hit : TRUE IN [cols EXCEPT ![q] = Append(@, c)]
          /\ i' = i + 1 /\ UNCHANGED <<pos, adj, stage>>
SortK(s) == CHOOSE q \in Perms(Range(s)) : \A x \in 1..(Len(q) - 1) : K(q[x]) < K(q[x + 1])
Sorted == /\ stage = "bucket" /\ i > Len(pos)
          /\ cols' = [q \in DOMAIN cols |-> SortK(cols[q])]
          /\ stage' = "split" /\ i' = 1 /\ UNCHANGED <<pos, adj>>
\* cut one column at its first gap; the upper part is set aside as a new column
Gaps(s) == {x \in 1..(Len(s) - 1) : <<s[x], s[x + 1]>> \notin adj}
Split == /\ stage = "split" /\ \E q \in DOMAIN cols : Gaps(cols[q]) # {} /\
            LET g == CHOOSE x \in Gaps(cols[q]) : \A y \in Gaps(cols[q]) : x <= y IN
            cols' = Append([cols EXCEPT ![q] = SubSeq(@, g + 1, Len(@))], SubSeq(cols[q], 1, g))
         /\ UNCHANGED <<pos, adj, i, stage>>
MNext == Bucket \/ Sorted \/ Split
MSpec == MInit /\ [][MNext]_vars
Correct == (stage = "split" /\ \A q \in DOMAIN cols : Gaps(cols[q]) = {}) => IsColumns(cols)
=============================================================================
