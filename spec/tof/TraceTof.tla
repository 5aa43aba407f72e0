------------------------------ MODULE TraceTof ------------------------------
EXTENDS Tof, TraceLib
VARIABLE l
vars == <<l>>
Ev == Log[l]
Net == [n |-> Ev.n, faces |-> Ev.faces, v |-> Ev.v, pv |-> Ev.pv, src |-> Ev.src] @@ (IF Has(Ev, "near") THEN [near |-> Ev.near] ELSE <<>>)
Cells == 1..Ev.n
\* face ages in as many rounds as a path can have cells
RECURSIVE Rounds(_, _, _, _)
Rounds(N, T, F, k) == IF k = 0 THEN F ELSE Rounds(N, T, TLCEval([f \in Faces(N) |-> FaceAge(N, T, F, f)]), k - 1)
TInit == l = 1
TNext == l <= LogLen /\ l' = l + 1 /\ Ev.ok /\
    LET N == Net IN
    CASE Ev.e = "tof"    -> \A c \in Cells : AgeOk(N, Ev.T, c, Ev.Q)
      [] Ev.e = "tracer" -> /\ \A c \in Cells : AgeOk(N, Ev.T, c, Ev.Q)
                            /\ Len(Ev.C) = Ev.n /\ \A c \in Cells : Len(Ev.C[c]) = Len(Heads(N)) /\ TracerOk(N, Ev.C, c, Ev.P)
      [] Ev.e = "multi"  -> LET F == Rounds(N, Ev.T, [f \in Faces(N) |-> 0], Ev.n + 1) IN \A c \in Cells : SpreadOk(N, Ev.T, F, c, Ev.Q)
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
