---------------------------- MODULE TraceInterp ----------------------------
EXTENDS Interp, TraceLib
VARIABLES l, D
vars == <<l, D>>
Ev == Log[l]
Nums(line, n) == Len(line) >= n
RECURSIVE FromLines(_, _, _, _)
FromLines(T, ls, xc, fc) == IF ls = <<>> THEN T
    ELSE FromLines(IF Nums(ls[1], xc) /\ Nums(ls[1], fc) THEN Insert(T, <<ls[1][xc], ls[1][fc]>>) ELSE T, Tail(ls), xc, fc)
(* ------------------------- what the cubic shows ------------------------- *)
I(T) == 1..(Len(T) - 1)
SampleOk(T, m, i, v) ==      \* five values from node i to node i+1, times 512
    /\ v[1] = 512 * T[i][2] /\ v[5] = 512 * T[i+1][2]
    /\ IF m[i] # Unknown /\ m[i+1] # Unknown THEN \A k \in 0..4 : v[k+1] = Cubic(T, m, i, k)
       ELSE Monotone(T) => \A k \in 1..4 : IF T[i][2] <= T[i+1][2] THEN v[k] <= v[k+1] ELSE v[k] >= v[k+1]
Extreme(T, p, S(_, _)) == p \in {T[i] : i \in DOMAIN T} /\ \A i \in DOMAIN T : S(p[2], T[i][2])
Jump(T, i) == Abs(T[i+1][2] - T[i][2])
Shows(T) ==
    /\ Ev.table = T /\ Ev.size = Len(T) /\ Ev.text = T
    /\ Len(T) > 0 => /\ Ev.left = 512 * T[1][2] /\ Ev.right = 512 * T[Len(T)][2]
                     /\ Ev.first = T[1] /\ Ev.last = T[Len(T)]
    /\ Len(T) > 1 =>
         LET m == Slopes(T) IN
         /\ Len(Ev.samples) = Len(T) - 1 /\ \A i \in I(T) : SampleOk(T, m, i, Ev.samples[i])
         /\ Ev.monotone = Monotone(T) /\ Ev.rising = Rising(T) /\ Ev.falling = Falling(T)
         /\ Ev.strict = (Monotone(T) /\ Strictly(T)) /\ Ev.srising = (Rising(T) /\ Strictly(T)) /\ Ev.sfalling = (Falling(T) /\ Strictly(T))
         /\ Extreme(T, Ev.max, LAMBDA a, b : a >= b) /\ Extreme(T, Ev.min, LAMBDA a, b : a <= b)
         /\ \E i \in I(T) : /\ Ev.missing = <<T[i][1] + T[i+1][1], Jump(T, i)>>
                            /\ \A j \in I(T) : Jump(T, j) <= Jump(T, i)
(* --------------------------- straight tables ---------------------------- *)
Clamp(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
\* evenly spaced values ys; point p is p quarters of an interval from the start; values times 4
Even(ys, p) == LET c == Clamp(p, 0, 4 * (Len(ys) - 1))  i == c \div 4  k == c % 4
               IN IF k = 0 THEN 4 * ys[i+1] ELSE (4 - k) * ys[i+1] + k * ys[i+2]
EvenRise(ys, p) == IF p < 0 \/ p > 4 * (Len(ys) - 1) THEN {0}
                   ELSE {ys[i+2] - ys[i+1] : i \in {j \in 0..(Len(ys) - 2) : 4 * j <= p /\ p <= 4 * (j + 1)}}
UniformOk == /\ Ev.domain = Ev.range /\ Ev.bad = FALSE
             /\ \A n \in 1..Len(Ev.p) : Ev.v[n] = Even(Ev.y, Ev.p[n]) /\ Ev.d[n] \in {r * (Len(Ev.y) - 1) : r \in EvenRise(Ev.y, Ev.p[n])}
             /\ Ev.same = TRUE /\ Ev.other = FALSE
             /\ Ev.text = [i \in 1..Len(Ev.y) |-> <<Ev.range[1] * (Len(Ev.y) - 1) + (Ev.range[2] - Ev.range[1]) * (i - 1), Ev.y[i]>>]
LinearOk == LET T == Ev.table IN
    /\ Ev.domain = <<T[1][1], T[Len(T)][1]>> /\ Ev.same = TRUE /\ Ev.other = FALSE
    /\ \A n \in 1..Len(Ev.q) :
         /\ \A i \in I(T) : Holds(T, Ev.q[n], i) => Ev.v[n] = Line(T, Ev.q[n], i) /\ Ev.w[n] = Line(T, Ev.q[n], i)
         /\ \E i \in I(T) : Holds(T, Ev.q[n], i) /\ Ev.d[n] = Rise4(T, i)
         /\ Holds(T, Ev.q[n], Ev.at[n])
    /\ Strictly(T) /\ Monotone(T) => Ev.inv = Ev.q
\* a table resampled: as many samples as quarters
Resampled == LET T == Ev.table  m == Slopes(T) IN
    /\ Ev.domain = <<T[1][1], T[Len(T)][1]>> /\ Len(Ev.v) = 4 * (Len(T) - 1) + 1
    /\ \A i \in I(T) : SampleOk(T, m, i, SubSeq(Ev.v, 4 * i - 3, 4 * i + 1))
TInit == l = 1 /\ D = <<>>
TNext == l <= LogLen /\ l' = l + 1 /\
    CASE Ev.e = "new"     -> D' = <<>>
      [] Ev.e = "build"   -> D' = Built(<<>>, Ev.pairs)
      [] Ev.e = "read"    -> LET T == FromLines(<<>>, Ev.lines, Ev.xc, Ev.fc) IN D' = T /\ Ev.ok = (T # <<>>)
      [] Ev.e = "add"     -> Ev.ok /\ D' = Insert(D, Ev.pair)
      [] Ev.e = "addbad"  -> ~Ev.ok /\ D' = D
      [] Ev.e = "scale"   -> D' = Scaled(D, Ev.k)
      [] Ev.e = "chop"    -> D' = Chopped(D, Ev.eps)
      [] Ev.e = "shrink"  -> D' = Shrunk(D, Ev.eps)
      [] Ev.e = "look"    -> D' = D /\ Shows(D)
      [] Ev.e = "uniform" -> D' = D /\ UniformOk
      [] Ev.e = "linear"  -> D' = D /\ LinearOk
      [] Ev.e = "resample" -> D' = D /\ Resampled
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
