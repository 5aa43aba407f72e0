---------------------------- MODULE TraceEquil ----------------------------
EXTENDS Equil, TraceLib
VARIABLE l
vars == <<l>>
Ev == Log[l]
Cells == DOMAIN Ev.z
(* ------------------------------ saturations ----------------------------- *)
\* in eighths; the range of the first phase is given per cell
First(c, most) == IF most THEN Ev.smax[c] ELSE Ev.smin[c]
Sat(c, s1) == Ev.sat[c] = <<s1, 8 - s1>>
Left(c) == Ev.cart[c] % Ev.nx < Ev.nx \div 2
SatOk == \A c \in Cells :
    CASE Ev.mode = "left"    -> Sat(c, First(c, Left(c)))
      [] Ev.mode = "below"   -> Sat(c, First(c, Below(Ev.z[c], Ev.woc)))
      [] Ev.mode = "above"   -> Sat(c, First(c, ~Below(Ev.z[c], Ev.woc)))
      [] Ev.mode = "given"   -> Sat(c, Ev.s0)
      [] Ev.mode = "default" -> Sat(c, Ev.smin[c])
(* ------------------------------- pressures ------------------------------ *)
W == Ev.dens[1]
O == Ev.dens[2]
Far == 100000
Woc == IF Ev.mode \in {"below", "above"} THEN Ev.woc ELSE Far
Rho == CASE Ev.mode = "above" -> [lo |-> O, hi |-> W, clo |-> Ev.c[2], chi |-> Ev.c[1]]
         [] Ev.mode = "below" -> [lo |-> W, hi |-> O, clo |-> Ev.c[1], chi |-> Ev.c[2]]
         [] Ev.mode = "default" -> [lo |-> O, hi |-> O, clo |-> Ev.c[2], chi |-> Ev.c[2]]
         [] OTHER -> [lo |-> 0, hi |-> 0, clo |-> 0, chi |-> 0]
\* the mixture's weight, times eight
Mixed == W * Ev.s0 + O * (8 - Ev.s0)
Order(S) == {<<a, b>> \in S \X S : a[1] < b[1] /\ \A x \in S : x[1] <= a[1] \/ x[1] >= b[1]}
Points == {<<Ev.z[c], Ev.p[c]>> : c \in Cells} \cup {<<Ev.datum, Ev.p0>>}
Span == LET Z == {Ev.z[c] : c \in Cells} IN (CHOOSE a \in Z : \A b \in Z : a >= b) - (CHOOSE a \in Z : \A b \in Z : a <= b)
Blur == 8 + (Ev.g * (IF W > O THEN W - O ELSE O - W) * (IF Span > 0 THEN Span ELSE 40)) \div 100
PressOk ==
    IF Ev.mode = "left" THEN \A c \in Cells : Ev.p[c] = Ev.p0
    ELSE IF Ev.mode = "given" THEN \A c \in Cells : 8 * (Ev.p[c] - Ev.p0) = Ev.g * Mixed * (Ev.z[c] - Ev.datum)
    ELSE IF Ev.K = 0 THEN \A c \in Cells : Ev.p[c] = Static(Ev.z[c], Ev.datum, Ev.p0, Ev.g, Woc, Rho)
    ELSE /\ \A c, d \in Cells : Ev.z[c] = Ev.z[d] => Ev.p[c] = Ev.p[d]
         /\ \A c \in Cells : Ev.z[c] = Ev.datum => Ev.p[c] = Ev.p0
         /\ \A o \in Order(Points) : Balanced(o[1], o[2], Ev.g, Woc, Rho, Ev.K, Blur)
FacesOk == \A f \in DOMAIN Ev.faces : LET F == Ev.faces[f] IN     \* <<c1, d1, c2, d2, value>>
    IF F[1] < 0 THEN F[5] = Ev.p[F[3] + 1] ELSE IF F[3] < 0 THEN F[5] = Ev.p[F[1] + 1]
    ELSE LET x == F[5] - Between(Ev.p[F[1]+1], F[2], Ev.p[F[3]+1], F[4]) IN IF Ev.K = 0 THEN x = 0 ELSE x \in (-40)..40
(* ------------------------------- from fields ---------------------------- *)
Fields == \A c \in Cells : LET k == Ev.cart[c] + 1 IN
    /\ Ev.p[c] = Ev.press[k]
    /\ Ev.sat[c] = IF Ev.phases = "wo" THEN <<Ev.sw[k], 8 - Ev.sw[k]>> ELSE IF Ev.phases = "og" THEN <<8 - Ev.sg[k], Ev.sg[k]>>
                   ELSE <<Ev.sw[k], 8 - Ev.sw[k] - Ev.sg[k], Ev.sg[k]>>
(* ---------------------------- surface volumes --------------------------- *)
RECURSIVE Sum(_, _, _, _)
Sum(A, s, row, col) == IF col > Len(s) THEN 0 ELSE A[Len(s) * (col - 1) + row] * s[col] + Sum(A, s, row, col + 1)
SurfOk == \A c \in DOMAIN Ev.sat : \A r \in 1..Len(Ev.sat[c]) : Ev.z[c][r] = Sum(Ev.A[c], Ev.sat[c], r, 1)
(* ------------------------------------------------------------------------ *)
TInit == l = 1
TNext == l <= LogLen /\ l' = l + 1 /\
    CASE Ev.e = "init" -> SatOk = TRUE /\ PressOk = TRUE /\ FacesOk = TRUE
      [] Ev.e = "fields" -> Fields = TRUE /\ FacesOk = TRUE
      [] Ev.e = "surf" -> SurfOk = TRUE
      [] Ev.e = "refuse" -> Ev.threw = TRUE
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
