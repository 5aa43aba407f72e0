------------------------------ MODULE HashSet ------------------------------
(* An integer set kept in an open-addressing table of power-of-two size.    *)
(* The abstract state is the set S; the table is its representation: where  *)
(* a key is placed is left open, that it is placed exactly once is not.     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES S, tab          \* set of keys; table: sequence of keys, -1 = free
Free == -1
Slots == DOMAIN tab
Keys(t) == {t[i] : i \in DOMAIN t} \ {Free}
Pow2(n) == \E e \in 0..20 : n = 2^e

\* Representation invariant
TableOK ==
    /\ Pow2(Len(tab))
    /\ Keys(tab) = S
    /\ \A i, j \in Slots : (i # j /\ tab[i] # Free) => tab[i] # tab[j]

RECURSIVE NextPow2(_, _)
NextPow2(m, k) == IF k >= m THEN k ELSE NextPow2(m, 2 * k)

Allocate(m, t) ==
    /\ S' = {}
    /\ tab' = t
    /\ Len(t) >= NextPow2(m, 1)
    /\ \A i \in DOMAIN t : t[i] = Free

\* k enters the set; where keys sit, and when and how far the table grows, is left open
Insert(k, ret, t) ==
    /\ k >= 0
    /\ S' = S \cup {k}
    /\ tab' = t
    /\ ret = k
    /\ Keys(t) = S \cup {k}
    /\ Len(t) >= Len(tab)
Count(n) == n = Cardinality(S)
=============================================================================
