------------------------------ MODULE Pillars ------------------------------
(* Corner-point grids.  A description has (nx+1)(ny+1) straight pillars and,  *)
(* for every cell, a depth on each of its four pillars for its top and its    *)
(* bottom.  The cells of the grid are the active ones that are not collapsed. *)
(* On a side, between two pillars, a cell is the band between two lines in    *)
(* the plane (t, z), t running from one pillar to the other; two cells of     *)
(* neighbouring columns meet where their bands overlap, and what overlaps no  *)
(* cell on the other side is a face to the outside.                           *)
(* Exact arithmetic: t and z of line crossings in units of 1/L.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
L == 60
Far == 10000      \* beyond every depth
\* description r: [nx, ny, nz, pil, z, act, fz]
\*   pil[1 + i + (nx+1) j] = <<x, y, sx, sy>>: passes (x + sx z, y + sy z) at depth z; fz = -1: elevations instead of depths
\*   z[1 + i + nx (j + ny k)] = <<8 depths>>: corner number di + 2 dj + 4 dk
Cols(r) == {<<i, j>> : i \in 0..(r.nx - 1), j \in 0..(r.ny - 1)}
Idx(r, c, k) == 1 + c[1] + r.nx * (c[2] + r.ny * k)
Corner(r, c, k, di, dj, dk) == r.z[Idx(r, c, k)][1 + di + 2 * dj + 4 * dk]
Collapsed(r, c, k) == \A di \in 0..1, dj \in 0..1 : Corner(r, c, k, di, dj, 0) = Corner(r, c, k, di, dj, 1)
Live(r, c, k) == r.act[Idx(r, c, k)] = 1 /\ ~Collapsed(r, c, k)
\* Cartesian indices of the cells, in order
Globals(r) == SelectSeq([q \in 1..(r.nx * r.ny * r.nz) |-> q - 1], LAMBDA g : Live(r, <<g % r.nx, (g \div r.nx) % r.ny>>, g \div (r.nx * r.ny)))
LiveK(r, c) == SelectSeq([q \in 1..r.nz |-> q - 1], LAMBDA k : Live(r, c, k))
\* ------------------------------------------------------------ bands on a side
\* ends[1], ends[2]: which corners <<di, dj>> of column c are on the two pillars of the side
Line(r, c, k, ends, dk) == <<Corner(r, c, k, ends[1][1], ends[1][2], dk), Corner(r, c, k, ends[2][1], ends[2][2], dk)>>
Band(r, c, k, ends) == [lo |-> Line(r, c, k, ends, 0), hi |-> Line(r, c, k, ends, 1)]
CellBands(r, c, ends) == LET ks == LiveK(r, c) IN [q \in 1..Len(ks) |-> Band(r, c, ks[q], ends)]
\* what is between, above and below the cells
Voids(bs) == LET n == Len(bs) IN
    [q \in 1..(n + 1) |-> [lo |-> IF q = 1 THEN <<0 - Far, 0 - Far>> ELSE bs[q - 1].hi, hi |-> IF q = n + 1 THEN <<Far, Far>> ELSE bs[q].lo]]
\* ------------------------------------------------------------ two lines, two bands
At(l, t, s) == l[1] * (s - t) + l[2] * t                   \* depth at t/s, times s
Crosses(a, b) == (a[1] < b[1] /\ a[2] > b[2]) \/ (a[1] > b[1] /\ a[2] < b[2])
CrossAt(a, b) == (L * (b[1] - a[1])) \div ((a[2] - a[1]) - (b[2] - b[1]))
MaxI(x, y) == IF x > y THEN x ELSE y
MinI(x, y) == IF x < y THEN x ELSE y
Lower(a, b, t, s) == MaxI(At(a.lo, t, s), At(b.lo, t, s))
Upper(a, b, t, s) == MinI(At(a.hi, t, s), At(b.hi, t, s))
Breaks(a, b) == {CrossAt(p[1], p[2]) : p \in {q \in {<<a.lo, b.lo>>, <<a.hi, b.hi>>, <<a.lo, b.hi>>, <<a.hi, b.lo>>} : Crosses(q[1], q[2])}}
Stops(a, b) == {0, L} \cup Breaks(a, b)
Nxt(S, t) == CHOOSE u \in S : u > t /\ \A v \in S : v > t => u <= v
\* the pieces on which the bands overlap, as <<t, next t>>
Open(a, b) == LET S == Stops(a, b) IN {<<t, Nxt(S, t)>> : t \in {u \in S : u # L /\ Lower(a, b, u + Nxt(S, u), 2 * L) < Upper(a, b, u + Nxt(S, u), 2 * L)}}
Meet(a, b) == Open(a, b) # {}
\* the overlap as a polygon: vertices <<t, z>>, along the lower line and back along the upper one
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Polygon(a, b) ==
    LET O == Open(a, b)
        ta == CHOOSE t \in {p[1] : p \in O} : \A p \in O : t <= p[1]
        tb == CHOOSE t \in {p[2] : p \in O} : \A p \in O : t >= p[2]
        In(p) == IF Crosses(p[1], p[2]) /\ CrossAt(p[1], p[2]) > ta /\ CrossAt(p[1], p[2]) < tb THEN {CrossAt(p[1], p[2])} ELSE {}
        fl == Asc({ta, tb} \cup In(<<a.lo, b.lo>>))
        gl == Asc({ta, tb} \cup In(<<a.hi, b.hi>>))
        low == [i \in 1..Len(fl) |-> <<fl[i], Lower(a, b, fl[i], L)>>]
        up == Rev([i \in 1..Len(gl) |-> <<gl[i], Upper(a, b, gl[i], L)>>])
    IN  SelectSeq(low \o up, LAMBDA v : TRUE)
\* pinched ends give the same vertex twice
Dedup(s) == LET RECURSIVE D(_, _) D(i, acc) == IF i > Len(s) THEN acc ELSE D(i + 1, IF \E q \in 1..Len(acc) : acc[q] = s[i] THEN acc ELSE Append(acc, s[i])) IN D(1, <<>>)
Area2(p) == LET RECURSIVE S(_) S(i) == IF i > Len(p) THEN 0 ELSE LET q == p[(i % Len(p)) + 1] IN p[i][1] * q[2] - q[1] * p[i][2] + S(i + 1) IN S(1)
SideArea2(a) == L * L * ((a.hi[1] - a.lo[1]) + (a.hi[2] - a.lo[2]))
\* ------------------------------------------------------------ the faces of a description
\* a side: [low, high: columns or <<>>, el, eh: their corners on the two pillars, p: the two pillars, tag]
Pil(r, i, j) == 1 + i + (r.nx + 1) * j
SidesI(r) == {[low |-> IF i = 0 THEN <<>> ELSE <<i - 1, j>>, high |-> IF i = r.nx THEN <<>> ELSE <<i, j>>,
               el |-> <<<<1, 0>>, <<1, 1>>>>, eh |-> <<<<0, 0>>, <<0, 1>>>>, p |-> <<Pil(r, i, j), Pil(r, i, j + 1)>>, tag |-> 0] : i \in 0..r.nx, j \in 0..(r.ny - 1)}
SidesJ(r) == {[low |-> IF j = 0 THEN <<>> ELSE <<i, j - 1>>, high |-> IF j = r.ny THEN <<>> ELSE <<i, j>>,
               el |-> <<<<0, 1>>, <<1, 1>>>>, eh |-> <<<<0, 0>>, <<1, 0>>>>, p |-> <<Pil(r, i, j), Pil(r, i + 1, j)>>, tag |-> 2] : i \in 0..(r.nx - 1), j \in 0..r.ny}
BandsOf(r, c, e) == IF c = <<>> THEN <<>> ELSE CellBands(r, c, e)
GlobOf(r, c, ks, q) == c[1] + r.nx * (c[2] + r.ny * ks[q])
\* position of a vertex of a side in space: x, y in 1/L^2, z in 1/L
Space(r, s, v) == LET a == r.pil[s.p[1]]  b == r.pil[s.p[2]] IN
    <<(L - v[1]) * (L * a[1] + a[3] * v[2]) + v[1] * (L * b[1] + b[3] * v[2]),
      (L - v[1]) * (L * a[2] + a[4] * v[2]) + v[1] * (L * b[2] + b[4] * v[2]), r.fz * v[2]>>
\* faces: [c: Cartesian indices of the two cells or -1, tag, e: set of edges as sets of two points]
Cycle(p) == {{p[i], p[(i % Len(p)) + 1]} : i \in 1..Len(p)}
Face(r, s, a, b, ga, gb) == LET p == Dedup(Polygon(a, b)) IN [c |-> <<ga, gb>>, tag |-> s.tag, e |-> Cycle([i \in 1..Len(p) |-> Space(r, s, p[i])])]
FacesOfSide(r, s) ==
    LET A == TLCEval(BandsOf(r, s.low, s.el))   B == TLCEval(BandsOf(r, s.high, s.eh))
        ka == IF s.low = <<>> THEN <<>> ELSE LiveK(r, s.low)  kb == IF s.high = <<>> THEN <<>> ELSE LiveK(r, s.high)
        VA == Voids(A)   VB == Voids(B)
    IN  {Face(r, s, A[p[1]], B[p[2]], GlobOf(r, s.low, ka, p[1]), GlobOf(r, s.high, kb, p[2])) : p \in {q \in (1..Len(A)) \X (1..Len(B)) : Meet(A[q[1]], B[q[2]])}}
        \cup {Face(r, s, A[p[1]], VB[p[2]], GlobOf(r, s.low, ka, p[1]), -1) : p \in {q \in (1..Len(A)) \X (1..Len(VB)) : Meet(A[q[1]], VB[q[2]])}}
        \cup {Face(r, s, VA[p[1]], B[p[2]], -1, GlobOf(r, s.high, kb, p[2])) : p \in {q \in (1..Len(VA)) \X (1..Len(B)) : Meet(VA[q[1]], B[q[2]])}}
\* tops and bottoms of a column
Quad(r, c, k, dk) == LET P(di, dj) == LET q == r.pil[Pil(r, c[1] + di, c[2] + dj)]  z == Corner(r, c, k, di, dj, dk) IN <<L * L * (q[1] + q[3] * z), L * L * (q[2] + q[4] * z), r.fz * L * z>>
                     IN  Cycle(<<P(0, 0), P(1, 0), P(1, 1), P(0, 1)>>)
Touch(r, c, k1, k2) == \A di \in 0..1, dj \in 0..1 : Corner(r, c, k1, di, dj, 1) = Corner(r, c, k2, di, dj, 0)
FacesOfColumn(r, c) ==
    LET ks == LiveK(r, c)   n == Len(ks)   G(q) == GlobOf(r, c, ks, q)
        F(a, b, e) == [c |-> <<a, b>>, tag |-> 4, e |-> e]
    IN  {F(G(q), IF q < n /\ Touch(r, c, ks[q], ks[q + 1]) THEN G(q + 1) ELSE -1, Quad(r, c, ks[q], 1)) : q \in 1..n}
        \cup {F(-1, G(q), Quad(r, c, ks[q], 0)) : q \in {p \in 1..n : p = 1 \/ ~Touch(r, c, ks[p - 1], ks[p])}}
FacesOf(r) == UNION {FacesOfSide(r, s) : s \in SidesI(r) \cup SidesJ(r)} \cup UNION {FacesOfColumn(r, c) : c \in Cols(r)}
\* ------------------------------------------------------------ volume, where pillars form a sheared rectangular lattice
Regular(r) == \A p \in 1..Len(r.pil) : r.pil[p][3] = r.pil[1][3] /\ r.pil[p][4] = r.pil[1][4]
IsParallelogram(r, c) == LET P(di, dj) == r.pil[Pil(r, c[1] + di, c[2] + dj)] IN \A a \in 1..2 : P(1, 0)[a] - P(0, 0)[a] = P(1, 1)[a] - P(0, 1)[a]
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
Base(r, c) == LET P(di, dj) == r.pil[Pil(r, c[1] + di, c[2] + dj)]
                  u == [a \in 1..2 |-> P(1, 0)[a] - P(0, 0)[a]]  v == [a \in 1..2 |-> P(0, 1)[a] - P(0, 0)[a]] IN AbsI(u[1] * v[2] - u[2] * v[1])
Thick4(r, c, k) == LET RECURSIVE S(_) S(q) == IF q = 5 THEN 0 ELSE r.z[Idx(r, c, k)][q + 4] - r.z[Idx(r, c, k)][q] + S(q + 1) IN S(1)
\* ------------------------------------------------------------ what a grid shows
\* cells: <<global, 4*volume>>; faces [c: cells, tag, p: points, s: does the normal point from first to second]; lists: per cell <<face, tag>>
Range(s) == {s[i] : i \in 1..Len(s)}
Shows(r, o) ==
    LET gl == TLCEval(Globals(r))
        exp == TLCEval(FacesOf(r))
        G(c) == IF c = -1 THEN -1 ELSE gl[c + 1]
        got == TLCEval([i \in 1..Len(o.faces) |-> [c |-> <<G(o.faces[i].c[1]), G(o.faces[i].c[2])>>, tag |-> o.faces[i].tag, e |-> Cycle(o.faces[i].p)]])
    IN  /\ o.cart = <<r.nx, r.ny, r.nz>>
        /\ o.global = gl
        /\ \A i \in 1..Len(o.faces) : \A q \in 1..2 : o.faces[i].c[q] \in -1..(Len(gl) - 1)
        /\ Range(got) = exp /\ Len(got) = Cardinality(exp)
        /\ \A i \in 1..Len(o.faces) : o.faces[i].s = 1
        /\ ~o.twice
        /\ Len(o.lists) = Len(gl)
        /\ \A c \in 0..(Len(gl) - 1) : LET want == {<<i - 1, o.faces[i].tag + 1>> : i \in {q \in 1..Len(o.faces) : o.faces[q].c[1] = c}} \cup {<<i - 1, o.faces[i].tag>> : i \in {q \in 1..Len(o.faces) : o.faces[q].c[2] = c}}
                                       IN  Range(o.lists[c + 1]) = want /\ Len(o.lists[c + 1]) = Cardinality(want)
        /\ Regular(r) => \A c \in 1..Len(gl) : LET cc == <<gl[c] % r.nx, (gl[c] \div r.nx) % r.ny>> IN IsParallelogram(r, cc) => o.vol4[c] = Base(r, cc) * Thick4(r, cc, gl[c] \div (r.nx * r.ny))
=============================================================================
