----------------------------- MODULE TraceTpfa ------------------------------
EXTENDS Tpfa, TraceLib
VARIABLE l
vars == <<net, frc, l>>
Ev == Log[l]
Exact(a, b) == IF a % b = 0 THEN a \div b ELSE Assert(FALSE, "inexact input")
\* Transmissibility of a face from its halves (already times mobility): harmonic, one half alone on the boundary.
Harm(h) == IF h[1] = 0 THEN h[2] ELSE IF h[2] = 0 THEN h[1] ELSE Exact(h[1] * h[2], h[1] + h[2])
\* Class-level events describe cells by phase mobilities and saturations (halves), densities and geometry.
Mob(c) == Ev.mob[c][1] + Ev.mob[c][2]
Omega(c) == Exact(Ev.mob[c][1] * Ev.rho[1] + Ev.mob[c][2] * Ev.rho[2], Mob(c))
SatRho(c) == Exact(Ev.sat[c][1] * Ev.rho[1] + Ev.sat[c][2] * Ev.rho[2], 2)
Side(f, k) == net.faces[f][k]
Trans == IF Has(Ev, "trans") THEN Ev.trans
         ELSE [f \in Faces(net) |-> Harm([k \in 1..2 |-> IF Side(f, k) = 0 THEN 0 ELSE Ev.half[f][k] * Mob(Side(f, k))])]
Heads == IF Has(Ev, "head") THEN Ev.head
         ELSE [f \in Faces(net) |-> [k \in 1..2 |-> IF Side(f, k) = 0 THEN 0 ELSE Ev.grav * Omega(Side(f, k)) * Ev.drop[f][k]]]
Wells == IF Has(Ev, "head") THEN Ev.wells
         ELSE [w \in DOMAIN Ev.wells |-> [kind |-> Ev.wells[w].kind, target |-> Ev.wells[w].target,
                 perf |-> [k \in DOMAIN Ev.wells[w].perf |-> LET p == Ev.wells[w].perf[k] IN <<p[1], p[2] * Mob(p[1]), p[3] * SatRho(p[1]) * Ev.grav>>]]]
\* Rock storage: either given, or by the pore volume curve pv0 (1 + p + p^2/2) at unit step and compressibility.
Pv(c, p) == Exact(Ev.pv[c] * (2 + 2 * p + p * p), 2)
Forces == [trans |-> Trans, head |-> Heads, src |-> Ev.src, bc |-> Ev.bc, wells |-> Wells, steady |-> Ev.steady,
           d |-> IF Has(Ev, "pv") THEN [c \in 1..net.nc |-> Pv(c, Ev.ref[c])] ELSE Ev.d,
           ref |-> Ev.ref,
           e |-> IF Has(Ev, "pv") THEN [c \in 1..net.nc |-> Pv(c, Ev.ref[c]) - Pv(c, Ev.start[c])] ELSE Ev.ex]
TInit == l = 1 /\ net = [nc |-> 0, faces |-> <<>>, nw |-> 0] /\ frc = Calm(net)
TNext == l <= LogLen /\ l' = l + 1 /\
    CASE Ev.e = "net"      -> NewNet([nc |-> Ev.nc, faces |-> Ev.faces, nw |-> Ev.nw])
      [] Ev.e = "assemble" -> Assemble(Forces, Ev.ok, Ev.x, Ev.xw, Ev.res, Ev.resw)
      [] Ev.e = "flux"     -> Report(Ev.x, Ev.xw, Ev.flux, Ev.wflux, Ev.old, Ev.bhp)
      [] Ev.e = "end"      -> frc' = Forces /\ UNCHANGED net /\ Ended(Forces, Ev.ok, Ev.conv, Ev.spent, Ev.x, Ev.xw)
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
