-------------------------------- MODULE Rock --------------------------------
(* Porosity and permeability of the cells of a grid, read from arrays over   *)
(* a Cartesian box.  A deck is a function from the keywords given to arrays. *)
EXTENDS Integers, Sequences, FiniteSets
Axes == <<"X", "Y", "Z">>
Diag == <<"PERMX", "PERMY", "PERMZ">>
Cross == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN Diag[i] ELSE
            CASE i = 1 /\ j = 2 -> "PERMXY" [] i = 1 /\ j = 3 -> "PERMXZ" [] i = 2 /\ j = 1 -> "PERMYX"
              [] i = 2 /\ j = 3 -> "PERMYZ" [] i = 3 /\ j = 1 -> "PERMZX" [] OTHER -> "PERMZY"]]
PermKeys == {Cross[i][j] : i, j \in 1..3}
Given(d) == DOMAIN d \cap PermKeys
Kind(d) == IF Given(d) = {} THEN "none"
           ELSE IF \E i, j \in 1..3 : i # j /\ Cross[i][j] \in DOMAIN d /\ ~({Diag[i], Diag[j]} \subseteq DOMAIN d) THEN "invalid"
           ELSE IF Given(d) \subseteq {Diag[i] : i \in 1..3} THEN (IF Cardinality(Given(d)) = 1 THEN "scalar" ELSE "diagonal")
           ELSE "tensor"
\* arrays must cover the box
Complete(d, boxsize) == \A k \in DOMAIN d : Len(d[k]) >= boxsize
\* a missing diagonal entry is a copy of the first one given
FirstDiag(d) == Diag[CHOOSE i \in 1..3 : Diag[i] \in DOMAIN d /\ \A j \in 1..(i-1) : Diag[j] \notin DOMAIN d]
Source(d, i, j) ==
    IF i = j THEN {IF Diag[i] \in DOMAIN d THEN Diag[i] ELSE FirstDiag(d)}
    ELSE {Cross[i][j], Cross[j][i]} \cap DOMAIN d
Clamped(x) == IF x < 0 THEN 0 ELSE x
\* the values entry (i, j) may have in the box position g
Entry(d, i, j, g) == IF Kind(d) = "none" \/ Source(d, i, j) = {} THEN {0}
                     ELSE {IF i = j THEN Clamped(d[k][g]) ELSE d[k][g] : k \in Source(d, i, j)}
TensorOf(d, g, K) == \A i, j \in 1..3 : K[i][j] \in Entry(d, i, j, g) /\ K[i][j] = K[j][i]
PoroOf(d, g, one) == IF "PORO" \in DOMAIN d THEN d["PORO"][g] ELSE one
Readable(d, boxsize) == Kind(d) # "invalid" /\ Complete(d, boxsize)
=============================================================================
