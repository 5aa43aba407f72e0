------------------------------- MODULE MCTof -------------------------------
(* Cells are solved in any order that respects the flow.  Ages and tracers   *)
(* are exact: fractions <<numerator, denominator>>.                          *)
EXTENDS Tof, TLC
CONSTANT MaxFlux
VARIABLES net, age, mix
vars == <<net, age, mix>>
Zero == <<0, 1>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(x) == LET g == Gcd(x[1], x[2]) IN IF x[1] = 0 THEN Zero ELSE <<x[1] \div g, x[2] \div g>>
Add(x, y) == Norm(<<x[1] * y[2] + y[1] * x[2], x[2] * y[2]>>)
Times(n, x) == Norm(<<n * x[1], x[2]>>)
Over(x, n) == Norm(<<x[1], x[2] * n>>)
AddAll(S, F(_)) == LET RECURSIVE Go(_)
                       Go(W) == IF W = {} THEN Zero ELSE LET x == CHOOSE y \in W : TRUE IN Add(F(x), Go(W \ {x}))
                   IN Go(S)
Unsolved == <<-1, 1>>
\* four cells in a ring with one chord, and one outside face
Shape == << <<1, 2>>, <<2, 3>>, <<3, 4>>, <<4, 1>>, <<1, 3>>, <<0, 1>>, <<4, 0>> >>
NetOf(v, pv) == LET N0 == [n |-> 4, faces |-> Shape, v |-> v, pv |-> pv, src |-> <<0, 0, 0, 0>>]
                IN [N0 EXCEPT !.src = [c \in 1..4 |-> Amount(N0, Outs(N0, c)) - Amount(N0, Ins(N0, c))]]
Init == net = <<>> /\ age = <<>> /\ mix = <<>>
Choose == /\ net = <<>>
          /\ \E v \in [1..5 -> (-1)..MaxFlux], b \in 0..1, pv \in {<<1, 1, 1, 1>>, <<2, 1, 3, 1>>} :
               net' = NetOf(v \o <<b, b>>, pv)
          /\ ~HasLoop(net') /\ Balanced(net')
          /\ age' = [c \in 1..4 |-> Unsolved] /\ mix' = [c \in 1..4 |-> [k \in 1..Len(Heads(net')) |-> Unsolved]]
Solve == /\ net # <<>> /\ UNCHANGED net
         /\ \E c \in 1..4 :
              /\ age[c] = Unsolved /\ Down(net, c) > 0 /\ \A u \in Before(net, c) : age[u] # Unsolved
              /\ age' = [age EXCEPT ![c] = Over(Add(<<net.pv[c], 1>>, AddAll({f \in Ins(net, c) : From(net, f) # 0}, LAMBDA f : Times(Abs(net.v[f]), age[From(net, f)]))), Down(net, c))]
              /\ mix' = [mix EXCEPT ![c] = [k \in DOMAIN mix[c] |->
                    IF net.src[c] > 0 THEN (IF Heads(net)[k] = c THEN <<1, 1>> ELSE Zero)
                    ELSE Over(AddAll({f \in Ins(net, c) : From(net, f) # 0}, LAMBDA f : Times(Abs(net.v[f]), mix[From(net, f)][k])), Down(net, c))]]
Next == Choose \/ Solve
Spec == Init /\ [][Next]_vars
Solved == IF net = <<>> THEN {} ELSE {c \in 1..4 : age[c] # Unsolved}
Done == net # <<>> /\ \A c \in 1..4 : Down(net, c) > 0 => c \in Solved
Less(x, y) == x[1] * y[2] < y[1] * x[2]
\* fluid only gets older: a cell's age exceeds the youngest of what flows into it
Older == \A c \in Solved : /\ Less(Zero, age[c])
                           /\ (net.src[c] <= 0 /\ Before(net, c) # {} /\ \A f \in Ins(net, c) : From(net, f) # 0)
                              => \E u \in Before(net, c) : Less(age[u], age[c])
\* everything in place is swept: the ages of what leaves account for every volume that takes part
Swept == Done => LET Live == {c \in 1..4 : Down(net, c) > 0} IN
    Add(AddAll({c \in Live : net.src[c] < 0}, LAMBDA c : Times(-net.src[c], age[c])), IF net.v[7] > 0 THEN age[4] ELSE Zero) = AddAll(Live, LAMBDA c : <<net.pv[c], 1>>)
\* where nothing comes from outside the tracers make up everything
FromOutside == {c \in 1..4 : c \in Solved /\ \E f \in Ins(net, c) : From(net, f) = 0}
Whole == \A c \in Solved : (net.v[6] = 0 \/ net.src[c] > 0) => AddAll(DOMAIN mix[c], LAMBDA k : mix[c][k]) = <<1, 1>>
Parts == \A c \in Solved : \A k \in DOMAIN mix[c] : ~Less(<<1, 1>>, mix[c][k]) /\ ~Less(mix[c][k], Zero)
\* rounding the exact answer is what the rounded conditions accept
Round(x, Q) == (2 * x[1] * Q + x[2]) \div (2 * x[2])
Accepted == Done =>
    LET T == [c \in 1..4 |-> IF c \in Solved THEN Round(age[c], 1000) ELSE 0]
        C == [c \in 1..4 |-> [k \in DOMAIN mix[c] |-> IF c \in Solved THEN Round(mix[c][k], 1000) ELSE 0]]
    IN \A c \in Solved : AgeOk(net, T, c, 1000) /\ TracerOk(net, C, c, 1000)
=============================================================================
