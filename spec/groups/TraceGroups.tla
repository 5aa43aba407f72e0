---------------------------- MODULE TraceGroups ----------------------------
EXTENDS Groups, TraceLib
CONSTANT Focus     \* the property in question: "check", "share" or "replace"
VARIABLE l
vars == <<cfg, cur, closed, gctl, pact, iact, l>>
Ev == Log[l]
S == \E o \in {Ev.w} : Shows(o)'
TInit == /\ l = 1 /\ cfg = [np |-> 2, pos |-> <<1, 2, 0>>, groups |-> <<>>, wells |-> <<>>]
         /\ cur = <<>> /\ closed = <<>> /\ gctl = <<>> /\ pact = <<>> /\ iact = <<>>
TNext == l <= LogLen /\ l' = l + 1 /\
    CASE Ev.e = "new"     -> Start(Ev.cfg) /\ S
      [] Ev.e = "apply" /\ Focus = "share" -> ApplyAll /\ S
      [] Ev.e = "apply"   -> Adopt(Ev.w)
      [] Ev.e = "told"    -> Told(Ev.g, Ev.k, Ev.mode, Ev.target, Ev.forced) /\ S
      [] Ev.e = "check"   -> Check(Ev.m, Ev.ok) /\ S
      [] Ev.e = "replace" -> Replace(Ev.m) /\ S
      [] Ev.e = "shut"    -> Shut(Ev.i) /\ S
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
