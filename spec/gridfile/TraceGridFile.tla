--------------------------- MODULE TraceGridFile ---------------------------
EXTENDS GridFile, TraceLib
VARIABLES l
vars == <<l>>
Ev == Log[l]
Read == Ev.null = ~Readable(Ev.file) /\ (~Ev.null => Ev.grid = GridOf(Ev.file))
Missing == Ev.null
Empty == Ev.sum = 0 /\ Ev.set = 0
Sizes == Ev.shown = Ev.asked /\ ~Ev.mapped
TInit == l = 1
TNext == l <= LogLen /\ l' = l + 1 /\
    (CASE Ev.e = "read" -> Read [] Ev.e = "missing" -> Missing [] Ev.e = "empty" -> Empty [] Ev.e = "sizes" -> Sizes [] OTHER -> FALSE) = TRUE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
