------------------------------- MODULE Interp -------------------------------
(* One-dimensional tables.  A table D is a sequence of nodes <<x, f>> in     *)
(* increasing order of x, all whole numbers.                                 *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Insert(_, _)
\* a later value for the same x replaces the earlier one
Insert(D, p) == IF D = <<>> THEN <<p>>
                ELSE IF p[1] < D[1][1] THEN <<p>> \o D
                ELSE IF p[1] = D[1][1] THEN <<p>> \o Tail(D)
                ELSE <<D[1]>> \o Insert(Tail(D), p)
RECURSIVE Built(_, _)
Built(D, ps) == IF ps = <<>> THEN D ELSE Built(Insert(D, ps[1]), Tail(ps))
Scaled(D, k) == [i \in DOMAIN D |-> <<D[i][1], k * D[i][2]>>]
Flat(a, b, eps) == Abs(a[2] - b[2]) < eps
\* flat ends lose all but their innermost point
RECURSIVE ChopFront(_, _)
ChopFront(D, eps) == IF Len(D) >= 2 /\ Flat(D[1], D[2], eps) THEN ChopFront(Tail(D), eps) ELSE D
RECURSIVE ChopBack(_, _)
ChopBack(D, eps) == IF Len(D) >= 3 /\ Flat(D[Len(D)-1], D[Len(D)], eps) THEN ChopBack(SubSeq(D, 1, Len(D) - 1), eps) ELSE D
Chopped(D, eps) == IF Len(D) < 3 THEN D ELSE ChopBack(ChopFront(D, eps), eps)
\* points that repeat the value before them go
RECURSIVE Thin(_, _, _)
Thin(K, D, eps) == IF D = <<>> THEN K
                   ELSE IF K # <<>> /\ Flat(K[Len(K)], D[1], eps) THEN Thin(K, Tail(D), eps) ELSE Thin(Append(K, D[1]), Tail(D), eps)
Rising(D) == \A i \in 1..(Len(D) - 1) : D[i][2] <= D[i+1][2]
Falling(D) == \A i \in 1..(Len(D) - 1) : D[i][2] >= D[i+1][2]
Monotone(D) == Rising(D) \/ Falling(D)
Strictly(D) == \A i \in 1..(Len(D) - 1) : D[i][2] # D[i+1][2]
Shrunk(D, eps) == IF Len(D) < 2 \/ ~Monotone(D) \/ Strictly(D) THEN D ELSE Thin(<<>>, D, eps)

(* The cubic: slopes between nodes are differences, slopes at nodes the mean *)
(* of both sides; with monotone data a flat side makes both its ends flat,   *)
(* and ends too steep for their side are scaled back (whose size is left     *)
(* open here: Unknown).  Slopes come in eighths; nodes next to a distance    *)
(* other than 1, 2 or 4 (points were removed) have slopes left open too.     *)
Unknown == 1000000
Rise4(D, i) == (4 * (D[i+1][2] - D[i][2])) \div (D[i+1][1] - D[i][1])
Even8(D, i) == i < 1 \/ i >= Len(D) \/ D[i+1][1] - D[i][1] \in {1, 2, 4}
Simple(D) == [i \in 1..Len(D) |-> IF ~Even8(D, i - 1) \/ ~Even8(D, i) THEN Unknown ELSE IF i = 1 THEN 2 * Rise4(D, 1) ELSE IF i = Len(D) THEN 2 * Rise4(D, i - 1) ELSE Rise4(D, i - 1) + Rise4(D, i)]
RECURSIVE Tamed(_, _, _)
Tamed(D, m, i) ==
    IF i = Len(D) THEN m
    ELSE LET r == Rise4(D, i) IN
         Tamed(D, IF D[i+1][2] = D[i][2] THEN [m EXCEPT ![i] = 0, ![i+1] = 0]
                  ELSE IF m[i] = Unknown \/ m[i+1] = Unknown \/ ~Even8(D, i) \/ m[i] * m[i] + m[i+1] * m[i+1] > 36 * r * r THEN [m EXCEPT ![i] = Unknown, ![i+1] = Unknown]
                  ELSE m, i + 1)
Slopes(D) == IF Monotone(D) THEN Tamed(D, Simple(D), 1) ELSE Simple(D)
\* 512 times the value k quarters into interval i
Cubic(D, m, i, k) ==
    LET h == D[i+1][1] - D[i][1] IN
    8 * D[i][2] * (2*k*k*k - 12*k*k + 64) + m[i] * (k*k*k - 8*k*k + 16*k) * h
    + 8 * D[i+1][2] * (12*k*k - 2*k*k*k) + m[i+1] * (k*k*k - 4*k*k) * h

(* Straight lines between nodes.  Points are given in quarters of an x unit. *)
\* the interval that holds the point; the first or last one outside
Holds(D, q, i) == /\ (i = 1 \/ 4 * D[i][1] <= q)
                  /\ (i = Len(D) - 1 \/ q <= 4 * D[i+1][1])
\* 16 times the value of the line through interval i (distances 1, 2, 4)
Line(D, q, i) == 16 * D[i][2] + Rise4(D, i) * (q - 4 * D[i][1])
=============================================================================
