--------------------------- MODULE TraceSchedule ---------------------------
EXTENDS Schedule, TraceLib
VARIABLE l
vars == <<svars, l>>
Ev == Log[l]
\* what the reader shows of the epoch being looked at
Shows(o) == LET e == ep[cur + 1] IN
    /\ Range(o.fields) = Fields(e)
    /\ DOMAIN o.vals = DOMAIN e.f
    /\ \A kw \in DOMAIN e.f : IF kw = "GRUPTREE" THEN Range(o.vals[kw]) = Range(e.f[kw]) /\ Len(o.vals[kw]) = Len(e.f[kw])
                              ELSE o.vals[kw] = e.f[kw]
    /\ o.steps = e.s
S == \E o \in {Ev.o} : Shows(o)'
TInit == l = 1 /\ ep = <<Empty>> /\ mode = "regular" /\ now = 0 /\ start = -1 /\ others = {} /\ cur = 0
TNext == l <= LogLen /\ l' = l + 1 /\
    CASE Ev.e = "begin"  -> Begin
      [] Ev.e = "kw"     -> Special(Ev.kw, Ev.recs)
      [] Ev.e = "tstep"  -> TimeSteps(Ev.s)
      [] Ev.e = "dates"  -> Dates(Ev.d)
      [] Ev.e = "other"  -> Other(Ev.kw)
      [] Ev.e = "parsed" -> UNCHANGED svars /\ Ev.ok /\ Ev.n = Len(ep) /\ Ev.start = start /\ cur = 0 /\ S
      [] Ev.e = "visit"  -> Visit(Ev.k, Ev.ok) /\ S
      [] Ev.e = "absent" -> UNCHANGED svars /\ (Ev.threw <=> Ev.kw \notin (DOMAIN ep[cur + 1].f \cup (IF ep[cur + 1].t THEN {"TSTEP"} ELSE {})))
                            /\ (Ev.has <=> Ev.kw \in Fields(ep[cur + 1]))
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
