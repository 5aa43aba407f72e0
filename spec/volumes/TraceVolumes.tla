--------------------------- MODULE TraceVolumes ---------------------------
(* Recorded reports against Volumes.  d holds the fluid and the wells of a  *)
(* well report and the rows reported so far.                                *)
EXTENDS Volumes, TraceLib
VARIABLES i, d
tvars == <<i, d>>
Ev == Log[i]
Shape(v, n) == Len(v) = n
\* ------------------------------------------------------------ rock
Mult(e, p) == IF e.kind = 3 THEN TabMult(e.tp, e.tm, p) ELSE Quad(e.k16, e.pref, p)
TRock == /\ Ev.e = "rock"
         /\ (/\ Ev.active = (Ev.kind = 3 \/ Ev.k16 # 0)
             /\ Shape(Ev.pv, Ev.nc) /\ Shape(Ev.pvc, Ev.nc) /\ Shape(Ev.por, Ev.nc)
             /\ \A c \in 1..Ev.nc : LET m == Mult(Ev, Ev.press[c]) IN
                /\ Ev.mult[c] = m
                /\ Ev.pv[c] = Ev.poro[c] * Ev.vol[c]
                /\ Ev.pvc[c] = Ev.poro[c] * Ev.vol[c] * m
                /\ Ev.por[c] = Ev.poro[c] * m
                /\ IF Ev.kind = 3 THEN \E k \in 1..(Len(Ev.tp) - 1) : /\ k = Seg(Ev.tp, Ev.press[c]) \/ (k < Len(Ev.tp) /\ Ev.tp[k] = Ev.press[c])
                                                                      /\ Near(Ev.comp[c], 1000000, Slope(Ev.tp, Ev.tm, k), m, 1)
                   ELSE Ev.comp[c] = 62500 * Ev.k16) = TRUE
         /\ UNCHANGED d
TSat == /\ Ev.e = "sat" /\ Ev.threw = Ev.bad
        /\ (Ev.bad \/ (/\ \A p \in 1..Ev.np : /\ Ev.vol[p] = SatVol(Ev.pv, Ev.s, Ev.np, p - 1)
                                             /\ Near(Ev.aver[p], 1000000, SatVol(Ev.pv, Ev.s, Ev.np, p - 1), 4 * Total(Ev.pv), 1))) = TRUE
        /\ UNCHANGED d
TSplit == /\ Ev.e = "split"
          /\ (/\ Shape(Ev.both, 2 * Len(Ev.sw)) /\ Shape(Ev.first, Len(Ev.so) \div 2)
              /\ \A c \in 1..Len(Ev.sw) : Ev.both[2 * c - 1] = Ev.sw[c] /\ Ev.both[2 * c] = 8 - Ev.sw[c]
              /\ \A c \in 1..Len(Ev.first) : Ev.first[c] = Ev.so[2 * c - 1]) = TRUE
          /\ UNCHANGED d
\* ------------------------------------------------------------ mobilities
Z(e, np, k) == [p \in 1..np |-> At(e.z, np, k, p - 1)]
MuAt(e, np, k, c) == IF e.bo THEN BoMu(e.p[k + 1], Z(e, np, k), c, np) ELSE e.mu
TMob == /\ Ev.e = "mob"
        /\ (LET np == Ev.np n == Len(Ev.cells) IN
            /\ Shape(Ev.pm, n * np) /\ Shape(Ev.tm, n) /\ Shape(Ev.ff, n * np)
            /\ (~Ev.bo => (Shape(Ev.tm2, n) /\ Shape(Ev.om, n)))
            /\ \A k \in 0..(n - 1) : LET c == Ev.cells[k + 1] m == Mobs(Ev.R, MuAt(Ev, np, k, c), np, c, Ev.s, k) t == Total(m) IN
                 /\ \A p \in 1..np : /\ At(Ev.pm, np, k, p - 1) = m[p]
                                     /\ Near(At(Ev.ff, np, k, p - 1), 1000000, m[p], t, 1)
                 /\ Ev.tm[k + 1] = t
                 /\ (~Ev.bo => (Ev.tm2[k + 1] = t /\ Near(Ev.om[k + 1], 1000, Total([p \in 1..np |-> m[p] * Ev.rho[p]]), t, 1)))) = TRUE
        /\ UNCHANGED d
TSurf == /\ Ev.e = "surf"
         /\ (LET np == Ev.np IN \A k \in 0..(Ev.n - 1), row \in 0..(np - 1) :
               At(Ev.z, np, k, row) = Total([q \in 1..np |-> Ev.A[k * np * np + (q - 1) * np + row + 1] * At(Ev.s, np, k, q - 1)])) = TRUE
         /\ UNCHANGED d
\* ------------------------------------------------------------ injected and produced
Part(e, c, m, q) == LET np == e.np flow == Neg(e.src[c + 1]) * e.dt t == Total(m) IN
    IF e.bo THEN (10000 * flow * Total([p \in 1..np |-> m[p] * BoA(e.p[c + 1], [x \in 1..np |-> 4 * At(e.z, np, c, x - 1)], c, q - 1, p - 1)])) \div t
    ELSE (10000 * flow * m[q]) \div t
TProd == /\ Ev.e = "prod" /\ Ev.threw = Ev.bad
         /\ (Ev.bad \/ (LET np == Ev.np IN
              /\ \A p \in 1..np : Ev.in[p] = (IF p = 1 THEN Inflow(Ev.src) * Ev.dt ELSE 0)
              /\ \A q \in 1..np : Abs(Ev.out[q] - Total([c \in 1..Ev.nc |-> Part(Ev, c - 1, Mobs(Ev.R, MuAt(Ev, np, c - 1, c - 1), np, c - 1, Ev.s, c - 1), q)])) <= Ev.nc + 1
              /\ (~Ev.bo => Abs(Total(Ev.out) - 10000 * Outflow(Ev.src) * Ev.dt) <= np))) = TRUE
         /\ UNCHANGED d
\* ------------------------------------------------------------ sources
RateOf(e, w, k) == e.rates[First(e.wells, w) + k]
TTsrc == /\ Ev.e = "tsrc"
         /\ (Ev.threw = (~Ev.nowells /\ Ev.np # 2)) = TRUE
         /\ (Ev.threw \/ (/\ Shape(Ev.out, Ev.nc)
                          /\ \A c \in 0..(Ev.nc - 1) : Ev.out[c + 1] = GridSrc(Ev.pairs, Ev.flux, Ev.src, Ev.frac, c)
                               + (IF Ev.nowells THEN 0 ELSE WellSum(Ev.wells, LAMBDA w, k : IF Ev.wells[w].cells[k] = c THEN PerfSrc(Ev.wells[w], RateOf(Ev, w, k), 1) ELSE 0, Len(Ev.wells))))) = TRUE
         /\ UNCHANGED d
TBtsrc == /\ Ev.e = "btsrc"
          /\ (Ev.threw = (~Ev.nowells /\ Ev.np # 2)) = TRUE
          /\ (Ev.threw \/ (/\ Shape(Ev.out, Ev.nc)
                           /\ \A c \in 0..(Ev.nc - 1) : Ev.out[c + 1] =
                               (IF Ev.nowells THEN 0 ELSE WellSum(Ev.wells, LAMBDA w, k : IF Ev.wells[w].cells[k] = c
                                   THEN PerfSrc(Ev.wells[w], RateOf(Ev, w, k), BoA(Ev.pp[First(Ev.wells, w) + k], Ev.wells[w].comp, c, 0, 0)) ELSE 0, Len(Ev.wells))))) = TRUE
          /\ UNCHANGED d
\* velocities in 1/8: what leaves through the faces, weighted with their offsets from the middle of the cell
TVel == /\ Ev.e = "vel"
        /\ (LET dim == Ev.dim IN /\ Shape(Ev.v, Ev.nc * dim)
              /\ \A c \in 0..(Ev.nc - 1), x \in 0..(dim - 1) :
                   At(Ev.v, dim, c, x) * Ev.vol[c + 1] = 8 * Total([f \in 1..(Len(Ev.pairs) \div 2) |->
                       LET out == IF Ev.pairs[2 * f - 1] = c THEN Ev.flux[f] ELSE IF Ev.pairs[2 * f] = c THEN -Ev.flux[f] ELSE 0
                       IN out * (At(Ev.fc, dim, f - 1, x) - At(Ev.cc, dim, c, x))])) = TRUE
        /\ UNCHANGED d
TW2src == /\ Ev.e = "w2src"
          /\ (Ev.threw = (Ev.np # 2 \/ (\E w \in 1..Len(Ev.wells) : ~AsSource(Ev.wells[w])))) = TRUE
          /\ (Ev.threw \/ (/\ Shape(Ev.out, Ev.nc)
                           /\ \A c \in 0..(Ev.nc - 1) : Ev.out[c + 1] = Total([w \in 1..Len(Ev.wells) |-> IF Ev.wells[w].cells[1] = c THEN SourceOf(Ev.wells[w]) ELSE 0]))) = TRUE
          /\ UNCHANGED d
\* ------------------------------------------------------------ wells
TWrates == /\ Ev.e = "wrates"
           /\ (LET W == Ev.wells np == Ev.np IN
               /\ Shape(Ev.first, Len(W)) /\ Shape(Ev.second, Len(W)) /\ Shape(Ev.phase, Len(W) * np)
               /\ \A w \in 1..Len(W) : /\ Ev.first[w] = PerfSum(W[w], LAMBDA k : Ev.rates[First(W, w) + k])
                                       /\ Ev.second[w] = PerfSum(W[w], LAMBDA k : Ev.rates2[First(W, w) + k])
                                       /\ \A p \in 0..(np - 1) : At(Ev.phase, np, w - 1, p) = PerfSum(W[w], LAMBDA k : Ev.rates[First(W, w) + k] * At(Ev.ff, np, W[w].cells[k], p))) = TRUE
           /\ UNCHANGED d
TWdp == /\ Ev.e = "wdp"
        /\ (LET W == Ev.wells np == Ev.np IN
            /\ Shape(Ev.wdp, NPerf(W))
            /\ \A w \in 1..Len(W) : \A k \in 1..Len(W[w].cells) :
                 LET c == W[w].cells[k] at == IF Ev.percell THEN c ELSE First(W, w) + k - 1
                     s == [p \in 1..np |-> At(Ev.s, np, at, p - 1)] t == IF Total(s) = 0 THEN 4 ELSE Total(s)
                 IN Near(Ev.wdp[First(W, w) + k], 1000, Total([p \in 1..np |-> s[p] * Ev.rho[p]]) * (Ev.depth[c + 1] - W[w].depth) * Ev.grav, t, 1)) = TRUE
        /\ UNCHANGED d
TWstate == /\ Ev.e = "wstate"
           /\ (LET W == Ev.wells IN
               /\ Shape(Ev.bhp, Len(W)) /\ Shape(Ev.rates, NPerf(W)) /\ Ev.npress = NPerf(W)
               /\ \A w \in 1..Len(W) : Ev.bhp[w] = (IF Ev.shut[w] = 0 /\ W[w].ctrl[W[w].cur].t = 0 THEN W[w].ctrl[W[w].cur].target ELSE Ev.press[W[w].cells[1] + 1])
               /\ \A k \in 1..Len(Ev.rates) : Ev.rates[k] = 0) = TRUE
           /\ UNCHANGED d
\* ------------------------------------------------------------ reports that grow
TReport0 == /\ Ev.e = "report0" /\ d' = [f |-> Ev, rows |-> <<>>, cuts |-> <<>>, t |-> <<0, 0, 0>>]
\* water of a perforation, in 1/10000
Water(e, w, k) == LET np == d.f.np W == d.f.wells rate == e.rates[First(W, w) + k] c == W[w].cells[k] m == Mobs(d.f.R, IF e.bo THEN BoMu(e.p[c + 1], Z(e, np, c), c, np) ELSE d.f.mu, np, c, e.s, c) IN
    IF rate > 0 THEN 2500 * rate * W[w].comp[1] ELSE -((-rate * 10000 * m[1]) \div Total(m))
Row(e) == [time |-> e.time, bhp |-> e.bhp, total |-> [w \in 1..Len(d.f.wells) |-> PerfSum(d.f.wells[w], LAMBDA k : e.rates[First(d.f.wells, w) + k])],
           water |-> [w \in 1..Len(d.f.wells) |-> PerfSum(d.f.wells[w], LAMBDA k : Water(e, w, k))]]
\* numbers in 1/10000; totals that are zero have no water cut
RowOk(r, t) == LET nw == Len(d.f.wells) IN /\ Shape(t, 1 + 3 * nw) /\ t[1] = 10000 * r.time
    /\ \A w \in 1..nw : /\ t[3 * w - 1] = 10000 * r.bhp[w] /\ t[3 * w] = 10000 * r.total[w]
                        /\ IF r.total[w] = 0 THEN TRUE ELSE Abs(t[3 * w + 1] * r.total[w] - r.water[w]) <= 3 * Abs(r.total[w]) + 4
TReport == /\ Ev.e = "report"
           /\ LET rows == Append(d.rows, Row(Ev)) cuts == Append(d.cuts, Ev.cut) sum == [k \in 1..3 |-> d.t[k] + Ev.t[k]] IN
              /\ (Len(Ev.text) = Len(rows) /\ (\A k \in 1..Len(rows) : RowOk(rows[k], Ev.text[k]))) = TRUE
              /\ (Len(Ev.cuttext) = Len(cuts) /\ (\A k \in 1..Len(cuts) : Ev.cuttext[k] = <<100 * cuts[k][1], cuts[k][2], 100 * cuts[k][3]>>)) = TRUE
              /\ (Ev.sum = <<sum[3], sum[1], sum[2]>> /\ Ev.sum2 = Ev.sum) = TRUE
              /\ d' = [d EXCEPT !.rows = rows, !.cuts = cuts, !.t = sum]
TInit == i = 1 /\ d = [f |-> 0]
TNext == i <= LogLen /\ i' = i + 1 /\ (TRock \/ TSat \/ TSplit \/ TMob \/ TSurf \/ TProd \/ TTsrc \/ TBtsrc \/ TVel \/ TW2src \/ TWrates \/ TWdp \/ TWstate \/ TReport0 \/ TReport \/ (Ev.e = "eof" /\ UNCHANGED d))
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
