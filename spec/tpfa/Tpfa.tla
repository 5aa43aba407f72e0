-------------------------------- MODULE Tpfa --------------------------------
(* The incompressible two-point pressure system as a mass balance.           *)
(*                                                                           *)
(* A network of cells joined by faces (cell 0 is the outside), with          *)
(* transmissibilities, gravity heads, sources, boundary conditions, wells    *)
(* and rock storage.  The meaning is given by fluxes: what a face carries    *)
(* for given pressures, what a perforation injects, and what remains in a    *)
(* cell.  A linear system  A x = b  represents the network when the residual *)
(* A x - b of every row is the imbalance of its cell or well, whatever x is. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES net,      \* [nc |-> cells, faces |-> <<a,b>> of every face, nw |-> wells]
          frc       \* what drives the flow, see Calm
vars_tpfa == <<net, frc>>

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
SumOver(S, F(_)) == LET RECURSIVE Go(_)
                        Go(T) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN F(t) + Go(T \ {t})
                    IN Go(S)

Faces(n) == 1..Len(n.faces)
Interior(n, f) == n.faces[f][1] > 0 /\ n.faces[f][2] > 0
Inside(n, f) == IF n.faces[f][1] > 0 THEN n.faces[f][1] ELSE n.faces[f][2]
Sgn(n, f) == IF n.faces[f][1] > 0 THEN 1 ELSE -1          \* of a boundary face: positive flux leaves

\* No forces at all: unit transmissibilities, no storage.
Calm(n) == [trans |-> [f \in Faces(n) |-> 1], head |-> [f \in Faces(n) |-> <<0, 0>>],
            src |-> [c \in 1..n.nc |-> 0], bc |-> <<>>,
            wells |-> [w \in 1..n.nw |-> [kind |-> "shut", target |-> 0, perf |-> <<>>]],
            steady |-> TRUE, d |-> [c \in 1..n.nc |-> 0], ref |-> [c \in 1..n.nc |-> 0], e |-> [c \in 1..n.nc |-> 0]]

(* --------------------------- what flows where --------------------------- *)
\* The potential difference of an interior face is that of the two cells'
\* pressures carried to the face; boundary faces carry what their condition says.
Cond(F, f) == {i \in 1..Len(F.bc) : F.bc[i].face = f}
Flux(n, F, x, f) ==
    IF Interior(n, f)
    THEN F.trans[f] * ((x[n.faces[f][1]] + F.head[f][1]) - (x[n.faces[f][2]] + F.head[f][2]))
    ELSE IF Cond(F, f) = {} THEN 0
    ELSE LET b == F.bc[CHOOSE i \in Cond(F, f) : TRUE]
         IN IF b.kind = "p" THEN Sgn(n, f) * F.trans[f] * (x[Inside(n, f)] - b.value)
            ELSE -Sgn(n, f) * b.value                      \* given as flow into the domain
\* Inflow from well w (bottom-hole pressure q) through its perforation k = [cell, t, head].
Perf(F, x, w, k, q) == IF F.wells[w].kind = "shut" THEN 0
                       ELSE LET p == F.wells[w].perf[k] IN p[2] * (q + p[3] - x[p[1]])
WellInto(F, x, xw, c) ==
    SumOver(DOMAIN F.wells, LAMBDA w : SumOver({k \in DOMAIN F.wells[w].perf : F.wells[w].perf[k][1] = c}, LAMBDA k : Perf(F, x, w, k, xw[w])))
Outflow(n, F, x, c) == SumOver({f \in Faces(n) : n.faces[f][1] = c}, LAMBDA f : Flux(n, F, x, f))
                     - SumOver({f \in Faces(n) : n.faces[f][2] = c}, LAMBDA f : Flux(n, F, x, f))
Storage(F, x, c) == F.d[c] * (x[c] - F.ref[c]) + F.e[c]
Balance(n, F, x, xw, c) == Outflow(n, F, x, c) + Storage(F, x, c) - F.src[c] - WellInto(F, x, xw, c)

(* --------------------------- the linear system --------------------------- *)
Handled(F) == \A w \in DOMAIN F.wells : F.wells[w].kind \in {"shut", "bhp", "rate"}
Fixed(F) == (\E i \in DOMAIN F.bc : F.bc[i].kind = "p") \/ (\E w \in DOMAIN F.wells : F.wells[w].kind = "bhp")
\* Pressure only determined up to a constant: one row must be pinned.
Floating(F) == F.steady /\ ~Fixed(F)
\* (a cell with no neighbour at all has nothing to pin)
Joined(n) == \A c \in 1..n.nc : \E f \in Faces(n) : Interior(n, f) /\ c \in {n.faces[f][1], n.faces[f][2]}
Consistent(F, xw) == \A w \in DOMAIN F.wells : F.wells[w].kind = "bhp" => xw[w] = F.wells[w].target
CellRows(n, F, x, xw, res) ==
    Consistent(F, xw) =>
        IF Floating(F)
        THEN \E p \in 1..n.nc : /\ \A c \in 1..n.nc \ {p} : res[c] = Balance(n, F, x, xw, c)
                                /\ LET s == res[p] - Balance(n, F, x, xw, p)
                                   IN IF x[p] = 0 THEN s = 0 ELSE IF Joined(n) THEN (s > 0) = (x[p] > 0) /\ s # 0 ELSE TRUE
        ELSE \A c \in 1..n.nc : res[c] = Balance(n, F, x, xw, c)
Conducts(F, w) == \E k \in DOMAIN F.wells[w].perf : F.wells[w].perf[k][2] > 0
WellRows(F, x, xw, resw) ==
    \A w \in DOMAIN F.wells : Conducts(F, w) =>
        CASE F.wells[w].kind = "bhp"  -> (resw[w] = 0) = (xw[w] = F.wells[w].target)
          [] F.wells[w].kind = "rate" -> resw[w] = SumOver(DOMAIN F.wells[w].perf, LAMBDA k : Perf(F, x, w, k, xw[w])) - F.wells[w].target
          [] OTHER                    -> (resw[w] = 0) = (xw[w] = 0)

(* ------------------------------ transitions ------------------------------ *)
NewNet(n) == net' = n /\ frc' = Calm(n)
\* Forces are given and the system is built; it is inspected at pressures x, xw.
Assemble(F, ok, x, xw, res, resw) ==
    /\ frc' = F /\ UNCHANGED net
    /\ ok = Handled(F)
    /\ ok => CellRows(net, F, x, xw, res) /\ WellRows(F, x, xw, resw)
\* Fluxes are computed from the pressures.
Report(x, xw, flux, wflux, oldbhp, bhp) ==
    /\ UNCHANGED vars_tpfa
    /\ \A f \in Faces(net) : flux[f] = Flux(net, frc, x, f)
    /\ \A w \in 1..net.nw : /\ \A k \in DOMAIN frc.wells[w].perf : wflux[w][k] = Perf(frc, x, w, k, xw[w])
                            /\ frc.wells[w].kind # "shut" => bhp[w] = xw[w]
                            /\ frc.wells[w].kind = "shut" => bhp[w] \in {oldbhp[w], xw[w]}
\* A solve succeeds only when the pressures stopped changing or every cell is in
\* balance, and gives up only when its iterations are spent.
Ended(F, ok, settled, spent, x, xw) ==
    IF ok THEN settled \/ \A c \in 1..net.nc : Balance(net, F, x, xw, c) = 0
    ELSE spent /\ ~settled
=============================================================================
