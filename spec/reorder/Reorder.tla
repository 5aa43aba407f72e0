------------------------------ MODULE Reorder ------------------------------
(* Flow-ordered cell sequences (transport/reorder).  faces is a sequence of *)
(* <<c1, c2, s>>: the cells on both sides (-1 outside) and the sign of the  *)
(* flux, positive from c1 to c2.                                            *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES n,        \* number of cells
          faces

Cells == 0..(n - 1)
Range(s) == {s[i] : i \in DOMAIN s}
Interior(f) == f[1] >= 0 /\ f[2] >= 0
\* <<u, v>>: fluid flows from u directly into v
Edge(f) == IF f[3] > 0 THEN <<f[1], f[2]>> ELSE <<f[2], f[1]>>
FlowFaces == {i \in DOMAIN faces : Interior(faces[i]) /\ faces[i][3] # 0}
Edges == {Edge(faces[i]) : i \in FlowFaces}

RECURSIVE Reach(_, _, _)
Reach(S, F, Nb) == IF F = {} THEN S ELSE LET N == UNION {Nb[c] : c \in F} \ S IN Reach(S \cup N, N, Nb)

IsPermutation(seq) == Len(seq) = n /\ Range(seq) = Cells
IsDivision(comps) == /\ Len(comps) >= 1 /\ comps[1] = 0 /\ comps[Len(comps)] = n
                     /\ \A i \in 1..(Len(comps) - 1) : comps[i] < comps[i + 1]

CompOf(seq, comps) ==   \* cell -> index of its component
    LET at == [i \in 1..Len(seq) |-> CHOOSE k \in 1..(Len(comps) - 1) : comps[k] < i /\ i <= comps[k + 1]]
        posn == [c \in Cells |-> CHOOSE i \in 1..Len(seq) : seq[i] = c]
    IN [c \in Cells |-> at[posn[c]]]

\* every flow between components goes forward, and every component circulates
IsFlowOrder(seq, comps) ==
    /\ IsPermutation(seq)
    /\ IsDivision(comps)
    /\ LET co == CompOf(seq, comps)
           E == Edges
           EI == {e \in E : co[e[1]] = co[e[2]]}
           Fw == [c \in Cells |-> {e[2] : e \in {x \in EI : x[1] = c}}]
           Bw == [c \in Cells |-> {e[1] : e \in {x \in EI : x[2] = c}}]
       IN /\ \A e \in E : co[e[1]] <= co[e[2]]
          /\ \A k \in 1..(Len(comps) - 1) :
                LET C == {seq[i] : i \in (comps[k] + 1)..comps[k + 1]}
                    s == seq[comps[k] + 1]
                IN Cardinality(C) > 1 => (Reach({s}, {s}, Fw) = C /\ Reach({s}, {s}, Bw) = C)

\* the upwind graph: per cell, the upstream cells, once per inflow face
CountIn(f_upto, c, u) == Cardinality({i \in FlowFaces : Edge(faces[i]) = <<u, c>>})
IsUpwindGraph(ia, ja) ==
    /\ Len(ia) = n + 1 /\ ia[1] = 0
    /\ \A c \in Cells : ia[c + 1] <= ia[c + 2]
    /\ Len(ja) = ia[n + 1]
    /\ ia[n + 1] = Cardinality(FlowFaces)
    /\ \A c \in Cells :
          LET row == {i \in (ia[c + 1] + 1)..ia[c + 2] : TRUE} IN
          \A u \in {ja[i] : i \in row} : Cardinality({i \in row : ja[i] = u}) = CountIn(0, c, u)

\* what a solver sees: one call per component, in order, with exactly its cells
IsSchedule(calls, seq, comps) ==
    /\ Len(calls) = Len(comps) - 1
    /\ \A k \in 1..Len(calls) : calls[k] = SubSeq(seq, comps[k] + 1, comps[k + 1])
=============================================================================
