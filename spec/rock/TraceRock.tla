----------------------------- MODULE TraceRock -----------------------------
EXTENDS Rock, TraceLib
VARIABLES l, deck, box
vars == <<l, deck, box>>
Ev == Log[l]
Deck == deck' = Ev.data /\ box' = Ev.box
CellOk(c) == /\ TensorOf(deck, Ev.active[c], Ev.perm[c])
             /\ Ev.poro[c] = PoroOf(deck, Ev.active[c], 10000)
\* Ev.active: box position (from 1) of every cell
Read == /\ Ev.threw = ~Readable(deck, box)
        /\ ~Ev.threw => (/\ Len(Ev.perm) = Len(Ev.active) /\ Len(Ev.poro) = Len(Ev.active) /\ Ev.cells = Len(Ev.active) /\ Ev.dims = 3
                         /\ \A c \in DOMAIN Ev.active : CellOk(c)) = TRUE
        /\ UNCHANGED <<deck, box>>
\* the same porosity and isotropic permeability everywhere
Uniform == /\ Ev.cells = Ev.n /\ Len(Ev.poro) = Ev.n /\ Len(Ev.perm) = Ev.n
           /\ \A c \in 1..Ev.n : Ev.poro[c] = Ev.phi /\ \A i, j \in 1..Ev.dims : Ev.perm[c][i][j] = IF i = j THEN Ev.k ELSE 0
           /\ UNCHANGED <<deck, box>>
TInit == l = 1 /\ deck = [k \in {} |-> <<>>] /\ box = 0
TNext == l <= LogLen /\ l' = l + 1 /\
    CASE Ev.e = "deck" -> Deck
      [] Ev.e = "read" -> Read
      [] Ev.e = "uniform" -> Uniform
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
