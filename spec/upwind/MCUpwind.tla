------------------------------ MODULE MCUpwind ------------------------------
(* One face in every situation; explicit steps on small networks; and the    *)
(* implicit step solved cell by cell, in any order that respects the flow.   *)
EXTENDS Upwind, TLC
VARIABLES phase, net, s, solved
mvars == <<phase, net, s, solved>>
R == 60
Mobs == {<<m, 3 - m>> : m \in 0..3} \cup {<<1, 0>>, <<0, 1>>, <<0, 0>>}
MInit == phase = "start" /\ net = <<>> /\ s = <<>> /\ solved = {}
Pairs == << <<1, 2>>, <<2, 3>>, <<3, 1>> >>
\* two cells, one face, everything about it
DoFace == /\ phase = "start" /\ phase' = "face" /\ s' = <<0, 0>> /\ solved' = {}
          /\ \E a \in Mobs, b \in Mobs, d \in -6..6, g \in -3..3 :
               net' = [faces |-> << <<1, 2>> >>, mob |-> <<a, b>>, d |-> <<d>>, g |-> <<g>>, src |-> <<0, 0>>, inj |-> <<R, R>>, dt |-> 1, nc |-> 2]
\* three cells in a ring, explicit
DoExplicit == /\ phase = "start" /\ phase' = "explicit" /\ solved' = {}
              /\ \E m \in [1..3 -> 0..3], d \in [1..3 -> {-1, 0, 2}], g \in [1..3 -> {-1, 0, 1}], q \in {<<0, -1, 2>>, <<2, 0, -1>>} :
                   /\ net' = [faces |-> Pairs, mob |-> [c \in 1..3 |-> <<m[c], 3 - m[c]>>], d |-> d, g |-> g, src |-> q, inj |-> <<R, R, R>>, dt |-> 1, nc |-> 3]
                   /\ s' = [c \in 1..3 |-> 60 + Explicit(net', [x \in 1..3 |-> 20 * m[x]], c, R)]
\* acyclic flow, implicit, linear fractions: solved one cell after the other.
\* Chosen so that pv + outflow is 1, 2 or 4: the results are whole 64ths.
DoFlow == /\ phase = "start" /\ phase' = "flow" /\ solved' = {}
          /\ \E v \in [1..3 -> {-2, -1, 0, 1, 3}], s0 \in [1..3 -> {0, 64}] :
               LET N == [faces |-> Pairs, v |-> v, nc |-> 3, dt |-> 1, pv |-> <<1, 1, 1>>, pv0 |-> <<1, 1, 1>>, b |-> <<1, 1, 1>>]
                   out(c) == SumSet({f \in 1..3 : (Pairs[f][1] = c /\ v[f] > 0) \/ (Pairs[f][2] = c /\ v[f] < 0)}, LAMBDA f : Abs(v[f]))
                   in(c) == SumSet({f \in 1..3 : (Pairs[f][1] = c /\ v[f] < 0) \/ (Pairs[f][2] = c /\ v[f] > 0)}, LAMBDA f : Abs(v[f]))
                   q == [c \in 1..3 |-> out(c) - in(c)]
                   M == [faces |-> Pairs, v |-> v, nc |-> 3, dt |-> 1, pv |-> <<1, 1, 1>>, pv0 |-> <<1, 1, 1>>, b |-> <<1, 1, 1>>, q |-> q]
               IN /\ \A c \in 1..3 : 1 + out(c) + (IF q[c] < 0 THEN -q[c] ELSE 0) \in {1, 2, 4}
                  /\ ~HasLoop(M) /\ net' = M /\ s' = [c \in 1..3 |-> <<s0[c], s0[c]>>]
Ready(c) == c \notin solved /\ \A f \in InOf(net, c) : Other(net, f, c) \in solved
Now == [c \in 1..3 |-> s[c][2]]
DoSolve == /\ phase = "flow" /\ UNCHANGED <<phase, net>>
           /\ \E c \in 1..3 : /\ Ready(c) /\ solved' = solved \cup {c}
                /\ LET in == SumSet(InOf(net, c), LAMBDA f : Carried(net, f, Now, 64)) + (IF net.q[c] > 0 THEN 64 * net.q[c] ELSE 0)
                       out == SumSet(OutOf(net, c), LAMBDA f : Abs(net.v[f])) + (IF net.q[c] < 0 THEN -net.q[c] ELSE 0)
                   IN s' = [s EXCEPT ![c][2] = (s[c][1] + in) \div (1 + out)]
\* a column at rest: heavy water settles until nothing moves
DoColumn == /\ phase = "start" /\ phase' = "column" /\ solved' = {}
            /\ \E s0 \in [1..3 -> 0..4], gf \in {<<1, 1>>, <<-1, -1>>} : s' = s0 /\ net' = [gf |-> gf]
\* one unit moves wherever it can
DoSettle == /\ phase = "column" /\ UNCHANGED <<phase, net, solved>>
            /\ \E k \in 1..2 : LET up == IF net.gf[k] > 0 THEN k ELSE k + 1
                                   dn == IF net.gf[k] > 0 THEN k + 1 ELSE k
                               IN s[up] > 0 /\ s[dn] < 4 /\ s' = [s EXCEPT ![up] = @ - 1, ![dn] = @ + 1]
MNext == DoFace \/ DoExplicit \/ DoFlow \/ DoSolve \/ DoColumn \/ DoSettle
MSpec == MInit /\ [][MNext]_mvars
(* ------------------------------ invariants ------------------------------ *)
F1 == net.mob[1]
F2 == net.mob[2]
\* there is always exactly one flux that respects upstream, ...
Defined == phase = "face" => Cardinality(FaceFluxes(F1, F2, net.d[1], net.g[1], R)) = 1
\* ... it does not depend on which way the face points, ...
Oriented == phase = "face" => WaterFlux(F1, F2, net.d[1], net.g[1], R) = -WaterFlux(F2, F1, -net.d[1], -net.g[1], R)
\* ... without gravity it is the upstream cell's fraction of the total flux, between none and all of it.
Plain == phase = "face" /\ net.g[1] = 0 =>
    LET x == WaterFlux(F1, F2, net.d[1], 0, R) IN Abs(x) <= R * Abs(net.d[1]) /\ (x > 0 => net.d[1] > 0) /\ (x < 0 => net.d[1] < 0)
\* what leaves one cell enters its neighbour
Conserved == phase = "explicit" =>
    SumSet(1..3, LAMBDA c : s[c]) = 180 + SumSet(1..3, LAMBDA c : 20 * net.mob[c][1]) + SumSet(1..3, LAMBDA c : Source(net, c, R))
Balanced == (phase = "flow" /\ solved = 1..3) =>
    /\ \A c \in 1..3 : Imbalance(net, [x \in 1..3 |-> s[x][1]], Now, Now, c, 64) = 0
    /\ SumSet(1..3, LAMBDA c : s[c][2]) - SumSet(1..3, LAMBDA c : s[c][1])
         = SumSet(1..3, LAMBDA c : IF net.q[c] > 0 THEN 64 * net.q[c] ELSE net.q[c] * s[c][2])
    /\ \A c \in 1..3 : s[c][2] \in 0..64
\* in a column only segregated contents are at rest, and whatever crosses is inside the column
Oil == [k \in 1..3 |-> 4 - s[k]]
Rest == phase = "column" =>
    /\ SumSet(1..3, LAMBDA k : Gain(s, Oil, net.gf, k)) = 0
    /\ (\A k \in 1..2 : LET u == IF net.gf[k] > 0 THEN k ELSE k + 1  d == IF net.gf[k] > 0 THEN k + 1 ELSE k IN s[u] = 0 \/ s[d] = 4)
         => \A k \in 1..3 : Gain(s, Oil, net.gf, k) = 0
\* a loop-free flow can always be solved to the end
Progress == (phase = "flow" /\ solved # 1..3) => \E c \in 1..3 : Ready(c)
=============================================================================
