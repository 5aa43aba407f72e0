---------------------------- MODULE TraceParams ----------------------------
EXTENDS Params, TraceLib
VARIABLE l
vars == <<pvars, l>>
Ev == Log[l]
Range(s) == {s[i] : i \in 1..Len(s)}
Only(s) == SelectSeq(s, LAMBDA p : p \in Parameters(t))
Leaves(s) == Range(Only(s))
TInit == l = 1 /\ t = Empty /\ hs = <<<<>>>>
TNext == l <= LogLen /\ l' = l + 1 /\
    CASE Ev.e = "begin"  -> Begin(Ev.files, Ev.args)
      [] Ev.e = "insert" -> Insert(Ev.p, Ev.v, Ev.threw)
      [] Ev.e = "read"   -> Read(Ev.f)
      [] Ev.e = "join"   -> Join(Ev.n, Ev.c)
      [] Ev.e = "get"    -> Get(Ev.h, Ev.p, Ev.ty, Ev.req, FALSE, "", Ev.st, Ev.v)
      [] Ev.e = "default" -> Get(Ev.h, Ev.p, Ev.ty, Ev.req, TRUE, Ev.d, Ev.st, Ev.v)
      [] Ev.e = "open"   -> Open(Ev.h, Ev.p, Ev.st)
      [] Ev.e = "has"    -> UNCHANGED pvars /\ Ev.r = HasIt(Ev.h, Ev.p)
      [] Ev.e = "usage"  -> UNCHANGED pvars /\ Leaves(Ev.used) = Used /\ Leaves(Ev.unused) = Parameters(t) \ Used /\ AnyUnused(Ev.any)
                            /\ Len(Only(Ev.used)) + Len(Only(Ev.unused)) = Cardinality(Parameters(t))
      [] Ev.e = "write"  -> UNCHANGED pvars /\ Range(Ev.lines) = Lines(t) /\ Range(Ev.again) = Lines(t)
                            /\ Len(Ev.lines) = Cardinality(Lines(t)) /\ Len(Ev.again) = Len(Ev.lines)
      [] Ev.e = "bad"    -> UNCHANGED pvars /\ Ev.threw
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
