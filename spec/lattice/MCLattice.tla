----------------------------- MODULE MCLattice -----------------------------
(* Every small lattice: the first axis is chosen, then the others.           *)
EXTENDS Lattice
CONSTANTS MaxN, Steps, Deps
RECURSIVE Acc(_, _)
Acc(s, x0) == IF s = <<>> THEN <<x0>> ELSE <<x0>> \o Acc(Tail(s), x0 + Head(s))
L == UNION {[1..n -> Steps] : n \in 1..MaxN}
MInit == g = [dim |-> 0, x |-> <<>>, y |-> <<>>, z |-> <<>>, dep |-> <<>>]
FirstAxis == g.dim = 0 /\ \E a \in L : g' = [g EXCEPT !.dim = 1, !.x = Acc(a, 0)]
Make2 == g.dim = 1 /\ \E b \in L : Build([dim |-> 2, x |-> g.x, y |-> Acc(b, -2), z |-> <<>>, dep |-> <<>>])
Make3 == g.dim = 1 /\ \E b \in L, c \in L : Build([dim |-> 3, x |-> g.x, y |-> Acc(b, 4), z |-> Acc(c, 0), dep |-> <<>>])
MakeDepth == g.dim = 1 /\ Len(g.x) <= 3 /\ \E b \in {<<4>>}, c \in {<<2>>, <<4, 2>>} : \E d \in [1..(Len(g.x) * (Len(b) + 1)) -> Deps] :
                Build([dim |-> 3, x |-> g.x, y |-> Acc(b, 0), z |-> Acc(c, 0), dep |-> d])
MNext == FirstAxis \/ Make2 \/ Make3 \/ MakeDepth
MSpec == MInit /\ [][MNext]_lvars
Built == g.dim >= 2 => WellFormed
=============================================================================
