----------------------------- MODULE TraceDeck -----------------------------
EXTENDS Deck, TraceLib
VARIABLE l
vars == <<dvars, l>>
Ev == Log[l]
TInit == l = 1 /\ want = <<>> /\ skipped = {}
TNext == l <= LogLen /\ l' = l + 1 /\
    CASE Ev.e = "deck"  -> NewDeck
      [] Ev.e = "block" -> Block(Ev.kw, Ev.recs)
      [] Ev.e = "skip"  -> Skip(Ev.kw)
      [] Ev.e = "read"  -> UNCHANGED dvars /\ Ev.ok /\ {Ev.fields[i] : i \in 1..Len(Ev.fields)} = DOMAIN want \cup skipped
      [] Ev.e = "obs"   -> UNCHANGED dvars /\ Shows(Ev.kw, Ev.recs)
      [] Ev.e = "bad"   -> UNCHANGED dvars /\ Ev.threw
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
