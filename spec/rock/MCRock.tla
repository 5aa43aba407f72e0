------------------------------- MODULE MCRock -------------------------------
EXTENDS Rock, TLC
CONSTANTS Box, MaxCells, Emitting
VARIABLES deck, active, rock, mode
vars == <<deck, active, rock, mode>>
Keys == PermKeys \cup {"PORO"}
Empty == [k \in {} |-> <<>>]
\* every entry of every array is different
Code == [k \in Keys |-> CHOOSE n \in 1..10 : k = <<"PORO", "PERMX", "PERMY", "PERMZ", "PERMXY", "PERMXZ", "PERMYX", "PERMYZ", "PERMZX", "PERMZY">>[n]]
Array(k) == [g \in 1..Box |-> 100 * Code[k] + g]
Init == deck = Empty /\ active = <<>> /\ rock = [ok |-> TRUE, poro |-> <<>>, perm |-> <<>>] /\ mode = "deck"
Give == /\ mode = "deck"
        /\ \E k \in Keys \ DOMAIN deck : deck' = [j \in DOMAIN deck \cup {k} |-> IF j = k THEN Array(k) ELSE deck[j]]
        /\ UNCHANGED <<active, rock, mode>>
Grid == /\ mode = "deck" /\ mode' = "grid" /\ UNCHANGED <<deck, rock>>
        /\ \E n \in 1..MaxCells : \E a \in [1..n -> 1..Box] : active' = a /\ \A c \in 1..(n-1) : a[c] # a[c+1]
Pick(d, i, j, g) == IF i <= j THEN CHOOSE x \in Entry(d, i, j, g) : TRUE ELSE CHOOSE x \in Entry(d, j, i, g) : TRUE
Script == ToString([keys |-> DOMAIN deck, active |-> active])
Read == /\ mode = "grid" /\ mode' = "done" /\ UNCHANGED <<deck, active>>
        /\ (Emitting => PrintT("@@" \o Script))
        /\ rock' = IF ~Readable(deck, Box) THEN [ok |-> FALSE, poro |-> <<>>, perm |-> <<>>]
                   ELSE [ok |-> TRUE, poro |-> [c \in DOMAIN active |-> PoroOf(deck, active[c], 1)],
                         perm |-> [c \in DOMAIN active |-> [i \in 1..3 |-> [j \in 1..3 |-> Pick(deck, i, j, active[c])]]]]
Next == Give \/ Grid \/ Read
Spec == Init /\ [][Next]_vars
Done == mode = "done" /\ rock.ok
Cells == DOMAIN active
Symmetric == Done => \A c \in Cells : \A i, j \in 1..3 : rock.perm[c][i][j] = rock.perm[c][j][i]
Judged == Done => \A c \in Cells : TensorOf(deck, active[c], rock.perm[c])
\* what is in a cell was given for that cell's box position, or is a default
Local == Done => \A c \in Cells : (\A i, j \in 1..3 : rock.perm[c][i][j] % 100 \in {0, active[c]}) /\ rock.poro[c] \in {1, 100 + active[c]}
\* every diagonal is known as soon as something is; full weight of what is given is seen
NoHoles == Done /\ Given(deck) # {} => \A c \in Cells : \A i \in 1..3 : rock.perm[c][i][i] > 0
Respects == Done => \A c \in Cells : \A i \in 1..3 : Diag[i] \in DOMAIN deck => rock.perm[c][i][i] = deck[Diag[i]][active[c]]
Isotropic == Done /\ Kind(deck) = "scalar" => \A c \in Cells : \A i, j \in 1..3 : rock.perm[c][i][j] = IF i = j THEN rock.perm[c][1][1] ELSE 0
NoCross == Done /\ Kind(deck) = "diagonal" => \A c \in Cells : \A i, j \in 1..3 : i # j => rock.perm[c][i][j] = 0
\* a cross entry alone never makes a tensor
Refused == mode = "done" /\ ~rock.ok => \E i, j \in 1..3 : i # j /\ Cross[i][j] \in DOMAIN deck /\ (Diag[i] \notin DOMAIN deck \/ Diag[j] \notin DOMAIN deck)
=============================================================================
