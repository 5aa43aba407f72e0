--------------------------- MODULE TraceWellsDeck ---------------------------
EXTENDS WellsDeck, TraceLib
VARIABLE l
vars == <<cfg, cur, closed, gctl, pact, iact, deck, l>>
Ev == Log[l]
D(d) == [d EXCEPT !.comp = [k \in DOMAIN d.comp |-> [d.comp[k] EXCEPT !.ws = Range(d.comp[k].ws)]]]
S == /\ \E o \in {Ev.w} : Shows(o)'
     /\ ShowsDeck(Ev.w) /\ ShowsTree(Ev.g) /\ Ev.leaves = Len(Names(deck))
TInit == /\ l = 1 /\ cfg = [np |-> 2, pos |-> <<1, 2, 0>>, groups |-> <<>>, wells |-> <<>>]
         /\ cur = <<>> /\ closed = <<>> /\ gctl = <<>> /\ pact = <<>> /\ iact = <<>> /\ deck = <<>>
TNext == l <= LogLen /\ l' = l + 1 /\
    CASE Ev.e = "deck"    -> Given(D(Ev.d))
      [] Ev.e = "wells"   -> Built /\ S
      [] Ev.e = "refused" -> Rejected
      [] Ev.e = "check"   -> Check(Ev.m, Ev.ok) /\ (\E o \in {Ev.w} : Shows(o)') /\ UNCHANGED deck
      [] Ev.e = "replace" -> Replace(Ev.m) /\ (\E o \in {Ev.w} : Shows(o)') /\ UNCHANGED deck
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
