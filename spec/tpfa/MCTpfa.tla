------------------------------- MODULE MCTpfa -------------------------------
(* A system assembled contribution by contribution, as a sparse matrix and a *)
(* right hand side, for every network of up to three cells and two faces     *)
(* beyond the first: its residual is the imbalance for all small pressures,  *)
(* contents cancel inside, and it is singular exactly when it floats.        *)
EXTENDS Tpfa, TLC
CONSTANTS MaxFaces, MaxForces
VARIABLES A, b, cnt
mvars == <<net, frc, A, b, cnt>>
NC == 3
N == NC + 1                     \* one well, its bottom-hole pressure is unknown N
V == {-1, 0, 2}
Z == [i \in 1..N |-> [k \in 1..N |-> 0]]
AddA(M, i, k, v) == [M EXCEPT ![i][k] = @ + v]
AddB(y, i, v) == [y EXCEPT ![i] = @ + v]
MInit == /\ net = [nc |-> NC, faces |-> <<>>, nw |-> 1] /\ frc = Calm(net)
         /\ A = Z /\ b = [i \in 1..N |-> 0] /\ cnt = 0
\* Faces come first; a face couples its two cells with opposite signs.
DoFace == /\ Len(net.faces) < MaxFaces /\ cnt = 0
          /\ \E x \in 0..NC, y \in 0..NC, t \in {1 + Len(net.faces)}, g \in {0, 1} :
                /\ x # y /\ g = (IF x = 0 \/ y = 0 THEN 0 ELSE 1)
                /\ net' = [net EXCEPT !.faces = Append(@, <<x, y>>)]
                /\ frc' = [frc EXCEPT !.trans = Append(@, t), !.head = Append(@, <<g, -g>>)]
                /\ IF x > 0 /\ y > 0
                   THEN /\ A' = AddA(AddA(AddA(AddA(A, x, x, t), x, y, -t), y, y, t), y, x, -t)
                        /\ b' = AddB(AddB(b, x, -2 * t * g), y, 2 * t * g)
                   ELSE UNCHANGED <<A, b>>
          /\ UNCHANGED cnt
Force == cnt < MaxForces /\ cnt' = cnt + 1 /\ UNCHANGED net
DoSource == /\ Force
            /\ \E c \in 1..NC, q \in {2} : /\ frc' = [frc EXCEPT !.src[c] = @ + q] /\ b' = AddB(b, c, q)
            /\ UNCHANGED A
DoBc == /\ Force
        /\ \E f \in Faces(net), k \in {"p", "q"}, v \in {3} :
             /\ ~Interior(net, f) /\ Cond(frc, f) = {}
             /\ frc' = [frc EXCEPT !.bc = Append(@, [kind |-> k, face |-> f, value |-> v])]
             /\ LET c == Inside(net, f) t == frc.trans[f]
                IN IF k = "p" THEN A' = AddA(A, c, c, t) /\ b' = AddB(b, c, t * v)
                   ELSE UNCHANGED A /\ b' = AddB(b, c, v)
DoWell == /\ Force /\ frc.wells[1].perf = <<>>
          /\ \E k \in {"shut", "bhp", "rate"}, q \in {1}, c1 \in 1..NC, c2 \in {0, 2}, h \in {1} :
               LET ps == IF c2 = 0 THEN << <<c1, 1, h>> >> ELSE << <<c1, 1, h>>, <<c2, 2, 0>> >>
                   RECURSIVE GoA(_, _)
                   GoA(M, i) == IF i > Len(ps) THEN M ELSE
                        LET c == ps[i][1] t == ps[i][2] IN
                        GoA(CASE k = "bhp" -> AddA(AddA(M, c, c, t), N, N, t)
                              [] k = "rate" -> AddA(AddA(AddA(AddA(M, c, c, t), c, N, -t), N, c, -t), N, N, t)
                              [] OTHER -> AddA(M, N, N, t), i + 1)
                   RECURSIVE GoB(_, _)
                   GoB(y, i) == IF i > Len(ps) THEN y ELSE
                        LET c == ps[i][1] t == ps[i][2] g == ps[i][3] IN
                        GoB(CASE k = "bhp" -> AddB(AddB(y, c, t * (q + g)), N, t * q)
                              [] k = "rate" -> AddB(AddB(y, c, t * g), N, -(t * g))
                              [] OTHER -> y, i + 1)
               IN /\ frc' = [frc EXCEPT !.wells[1] = [kind |-> k, target |-> q, perf |-> ps]]
                  /\ A' = GoA(A, 1)
                  /\ b' = IF k = "rate" THEN AddB(GoB(b, 1), N, q) ELSE GoB(b, 1)
DoRock == /\ Force /\ frc.steady
          /\ \E c \in 1..NC, d \in {2}, r \in {3}, e \in {1} :
               /\ frc' = [frc EXCEPT !.steady = FALSE, !.d[c] = d, !.ref[c] = r, !.e[c] = e]
               /\ A' = AddA(A, c, c, d) /\ b' = AddB(b, c, d * r - e)
DoPin == /\ Force /\ frc.wells[1].perf # <<>> /\ Floating(frc) /\ A[1][1] > 0 /\ cnt = MaxForces - 1
         /\ A' = AddA(A, 1, 1, A[1][1]) /\ UNCHANGED <<b, frc>>
MNext == DoFace \/ DoSource \/ DoBc \/ DoWell \/ DoRock \/ DoPin
MSpec == MInit /\ [][MNext]_mvars
Row(i, x, xw) == SumOver(1..NC, LAMBDA k : A[i][k] * x[k]) + A[i][N] * xw - b[i]
Xs == {<<0, 0, 0>>, <<2, -1, 0>>, <<1, 1, 1>>, <<-1, 2, 3>>}
Wx == IF frc.wells[1].kind = "bhp" THEN {frc.wells[1].target} ELSE {0, 2}
Pinned == cnt = MaxForces /\ Floating(frc) /\ SumOver(1..N, LAMBDA k : A[1][k]) # 0
Means == \A x \in Xs : \A q \in Wx :
            /\ ~Floating(frc) => CellRows(net, frc, x, <<q>>, [c \in 1..NC |-> Row(c, x, q)])
            /\ Floating(frc) => IF Pinned THEN CellRows(net, frc, x, <<q>>, [c \in 1..NC |-> Row(c, x, q)])
                                ELSE \A c \in 1..NC : Row(c, x, q) = Balance(net, frc, x, <<q>>, c)
            /\ WellRows(frc, x, <<q>>, <<Row(N, x, q)>>)
\* What leaves one cell enters its neighbour: the total only changes by boundary, wells, sources, storage.
Conserves == \A x \in Xs : \A q \in Wx :
    SumOver(1..NC, LAMBDA c : Outflow(net, frc, x, c)) = SumOver({f \in Faces(net) : ~Interior(net, f)}, LAMBDA f : Sgn(net, f) * Flux(net, frc, x, f))
\* A constant shift of all pressures is invisible exactly to a floating system.
Shifts == (Floating(frc) /\ ~Pinned) => \A x \in Xs : \A q \in Wx : \A c \in 1..NC :
    Balance(net, frc, x, <<q>>, c) = Balance(net, frc, [i \in 1..NC |-> x[i] + 5], <<q + 5>>, c)
Symmetric == \A i \in 1..N, k \in 1..N : A[i][k] = A[k][i]
\* Behaviours for the implementation: faces, sources, conditions, well, rock.
S(i) == ToString(i) \o " "
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Cat(Tail(q))
Emit == cnt # MaxForces \/ PrintT("@@" \o S(Len(net.faces))
    \o Cat([f \in Faces(net) |-> S(net.faces[f][1]) \o S(net.faces[f][2]) \o S(frc.trans[f]) \o S(frc.head[f][1]) \o S(frc.head[f][2])])
    \o Cat([c \in 1..NC |-> S(frc.src[c])]) \o S(Len(frc.bc))
    \o Cat([i \in 1..Len(frc.bc) |-> frc.bc[i].kind \o " " \o S(frc.bc[i].face) \o S(frc.bc[i].value)])
    \o frc.wells[1].kind \o " " \o S(frc.wells[1].target) \o S(Len(frc.wells[1].perf))
    \o Cat([i \in 1..Len(frc.wells[1].perf) |-> S(frc.wells[1].perf[i][1]) \o S(frc.wells[1].perf[i][2]) \o S(frc.wells[1].perf[i][3])])
    \o S(IF frc.steady THEN 1 ELSE 0) \o Cat([c \in 1..NC |-> S(frc.d[c]) \o S(frc.ref[c]) \o S(frc.e[c])]))
=============================================================================
