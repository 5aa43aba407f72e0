----------------------------- MODULE MCHashSet -----------------------------
(* Refinement check: inserting with arbitrary probe orders keeps the table  *)
(* a representation of the set, across growth.                              *)
EXTENDS HashSet, TLC
CONSTANTS MaxKey, MaxLen
vars == <<S, tab>>
MInit == \E m \in 0..2 : S = {} /\ tab = [i \in 1..NextPow2(m, 1) |-> Free]
\* the code's algorithm, with the probe order arbitrary: the key's own slot or any free one;
\* a full table is rebuilt at twice the size
Place(t, k) == IF \E i \in DOMAIN t : t[i] = k THEN {t}
               ELSE {[t EXCEPT ![i] = k] : i \in {x \in DOMAIN t : t[x] = Free}}
RECURSIVE PlaceAll(_, _)
PlaceAll(ts, ks) == IF ks = {} THEN ts ELSE LET k == CHOOSE x \in ks : TRUE
                    IN PlaceAll(UNION {Place(t, k) : t \in ts}, ks \ {k})
InPlace == \E k \in 0..MaxKey : \E t \in Place(tab, k) : tab' = t /\ S' = S \cup {k}
Rebuild == \E k \in 0..MaxKey \ S :
    /\ Free \notin {tab[i] : i \in Slots}
    /\ 2 * Len(tab) <= MaxLen
    /\ \E t \in PlaceAll({[i \in 1..(2 * Len(tab)) |-> Free]}, Keys(tab) \cup {k}) : tab' = t /\ S' = S \cup {k}
MNext == InPlace \/ Rebuild
MSpec == MInit /\ [][MNext]_vars
\* every algorithm step is an Insert of the specification
Refines == [][\E k \in 0..MaxKey : Insert(k, k, tab')]_vars
=============================================================================
