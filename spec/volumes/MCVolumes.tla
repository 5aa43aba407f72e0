----------------------------- MODULE MCVolumes -----------------------------
(* Two cells of two phases are displaced in steps: each step has sources    *)
(* and a flux between the cells, and what is injected and produced is added *)
(* to what has been reported so far.                                        *)
EXTENDS Volumes, TLC
CONSTANTS Steps, Mus, Rs
MusV == {<<1, 1>>, <<1, 4>>, <<4, 1>>}
RsV == {<<1, 1, 1, 1>>, <<1, 3, 2, 4>>, <<4, 1, 1, 2>>}
VARIABLES s, src, flux, mu, R, n, inj, prod, gone
vars == <<s, src, flux, mu, R, n, inj, prod, gone>>
Pv == <<3, 5>>
Init == /\ s = <<1, 3, 4, 0>> /\ src = <<2, -2>> /\ flux = 1 /\ mu \in Mus /\ R \in Rs /\ n = 0 /\ inj = 0 /\ prod = <<0, 0>> /\ gone = 0
Pairs == <<-1, 0, 0, 1, 1, -1>>
M(c) == Mobs(R, mu, 2, c, s, c)
\* shares in sixtieths of the total mobility are not whole: keep them as fractions over the product of the totals
Den == Total(M(0)) * Total(M(1))
Share(c, p) == M(c)[p] * (IF c = 0 THEN Total(M(1)) ELSE Total(M(0)))
\* rounded down and up, so that what is reported brackets the truth
Low(p) == Sum([c \in 1..2 |-> (1000 * Neg(src[c]) * Share(c - 1, p)) \div Den], 2)
Report == /\ n < Steps /\ n' = n + 1 /\ inj' = inj + Inflow(src) /\ prod' = [p \in 1..2 |-> prod[p] + Low(p)] /\ gone' = gone + Outflow(src) /\ UNCHANGED <<s, src, flux, mu, R>>
Displace(c) == /\ s[2 * c - 1] < 4 /\ s' = [s EXCEPT ![2 * c - 1] = @ + 1, ![2 * c] = @ - 1] /\ UNCHANGED <<src, flux, mu, R, n, inj, prod, gone>>
Drain(c) == /\ s[2 * c] < 4 /\ s' = [s EXCEPT ![2 * c - 1] = @ - 1, ![2 * c] = @ + 1] /\ UNCHANGED <<src, flux, mu, R, n, inj, prod, gone>>
DisplaceA == Displace(1)
DisplaceB == Displace(2)
DrainA == Drain(1)
Turn == src' = <<src[2], src[1]>> /\ flux' = -flux /\ UNCHANGED <<s, mu, R, n, inj, prod, gone>>
Next == Report \/ DisplaceA \/ DisplaceB \/ DrainA \/ Turn
Spec == Init /\ [][Next]_vars
\* phases share all that is produced, and nothing more
Shares == /\ \A c \in 0..1 : Share(c, 1) + Share(c, 2) = Den /\ Share(c, 1) >= 0 /\ Share(c, 2) >= 0
          /\ \A c \in 0..1 : (s[2 * c + 1] = 0 => Share(c, 1) = 0) /\ (s[2 * c + 1] = 4 => Share(c, 1) = Den)
Produced == LET t == prod[1] + prod[2] IN t <= 1000 * gone /\ t >= 1000 * gone - 4 * n
\* volumes of the phases fill the pores; averages lie between the cells' values
Fill == /\ SatVol(Pv, s, 2, 0) + SatVol(Pv, s, 2, 1) = 4 * Total(Pv)
        /\ \A p \in 0..1 : LET a == s[p + 1] b == s[p + 3] v == SatVol(Pv, s, 2, p) IN (IF a < b THEN a ELSE b) * Total(Pv) <= v /\ v <= (IF a < b THEN b ELSE a) * Total(Pv)
\* with water alone coming in, sources of the cells are all that crosses the boundary: inner faces do not count
Balance == LET f == <<flux, 7, -flux>> T(fr) == GridSrc(Pairs, f, src, fr, 0) + GridSrc(Pairs, f, src, fr, 1) IN
    /\ T(4) = 4 * (src[1] + src[2] + flux + flux)
    /\ T(0) = -4 * (Outflow(src) + 2 * Neg(flux)) /\ T(1) <= T(4)
\* wells add up however they share cells, and only injectors bring anything
WellsAdd == LET W == << [prod |-> FALSE, comp |-> <<s[1], s[2]>>, cells |-> <<0, 1>>], [prod |-> TRUE, comp |-> <<4, 0>>, cells |-> <<1>>] >> rate == <<3, 2, src[1]>>
                S(c) == WellSum(W, LAMBDA w, k : IF W[w].cells[k] = c THEN PerfSrc(W[w], rate[First(W, w) + k], 1) ELSE 0, 2) IN
    S(0) + S(1) = 5 * s[1] - 4 * Neg(src[1])
\* multipliers: one at the reference, continuous and growing along the table
Rock == \A p \in 95..108 : LET tp == <<98, 100, 104>> tm == <<30, 32, 40>> IN
    /\ Quad(1, 100, 100) = 512 /\ Quad(2, 100, p + 1) > Quad(2, 100, p) /\ TabMult(tp, tm, p + 1) > TabMult(tp, tm, p) /\ \A k \in 1..3 : TabMult(tp, tm, tp[k]) = 16 * tm[k]
\* reports never shrink
Grows == [][inj' >= inj /\ (\A p \in 1..2 : prod'[p] >= prod[p])]_vars
=============================================================================
