----------------------------- MODULE MCReorder -----------------------------
(* The ordering algorithm (iterative strong components on one vertex stack  *)
(* and one component stack), step by step on every flow graph with N cells: *)
(* it always ends in a flow order.                                          *)
EXTENDS Reorder, TLC
CONSTANTS N
VARIABLES seed, stk, cstk, status, tm, link, t, vert, comp
av == <<seed, stk, cstk, status, tm, link, t, vert, comp>>
vars == <<n, faces, av>>
REMAINING == -1
DONE == -2
Preds(c) == {e[1] : e \in {x \in Edges : x[2] = c}}
\* descendants of c in the upwind graph, in some fixed order
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN Append(SetSeq(S \ {x}), x)
Adj(c) == SetSeq(Preds(c))
MinI(a, b) == IF a < b THEN a ELSE b
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
PairSeq == SetSeq({<<a, b>> \in (0..(N - 1)) \X (0..(N - 1)) : a # b})
MInit == /\ n = N
         /\ \E E \in SUBSET Range(PairSeq) : faces = [i \in 1..Len(PairSeq) |-> <<PairSeq[i][1], PairSeq[i][2], IF PairSeq[i] \in E THEN 1 ELSE 0>>]
         /\ seed = 0 /\ stk = <<>> /\ cstk = <<>> /\ t = 0 /\ vert = <<>> /\ comp = <<0>>
         /\ status = [c \in 0..(N - 1) |-> REMAINING]
         /\ tm = [c \in 0..(N - 1) |-> 0] /\ link = [c \in 0..(N - 1) |-> 0]
U == UNCHANGED <<n, faces>>
NextSeed == /\ stk = <<>> /\ seed < n
            /\ IF status[seed] = DONE THEN seed' = seed + 1 /\ UNCHANGED <<stk, t>>
               ELSE stk' = <<seed>> /\ t' = 0 /\ UNCHANGED seed
            /\ U /\ UNCHANGED <<cstk, status, tm, link, vert, comp>>
Enter == /\ stk # <<>> /\ status[Top(stk)] = REMAINING
         /\ LET c == Top(stk) IN
            /\ status' = [status EXCEPT ![c] = Len(Adj(c))]
            /\ tm' = [tm EXCEPT ![c] = t] /\ link' = [link EXCEPT ![c] = t] /\ t' = t + 1
            /\ cstk' = Append(cstk, c)
         /\ U /\ UNCHANGED <<seed, stk, vert, comp>>
RECURSIVE PopUntil(_, _)
PopUntil(s, c) == IF Top(s) = c THEN <<c>> ELSE <<Top(s)>> \o PopUntil(Pop(s), c)
Leave == /\ stk # <<>> /\ status[Top(stk)] = 0
         /\ LET c == Top(stk)  rest == Pop(stk)  root == link[c] = tm[c]
                out == IF root THEN PopUntil(cstk, c) ELSE <<>>
            IN /\ vert' = vert \o out
               /\ comp' = IF root THEN Append(comp, Len(vert) + Len(out)) ELSE comp
               /\ cstk' = SubSeq(cstk, 1, Len(cstk) - Len(out))
               /\ status' = [x \in DOMAIN status |-> IF x \in Range(out) THEN DONE ELSE status[x]]
               /\ stk' = rest
               /\ link' = IF rest = <<>> THEN link ELSE [link EXCEPT ![Top(rest)] = MinI(@, link[c])]
         /\ U /\ UNCHANGED <<seed, tm, t>>
Visit == /\ stk # <<>> /\ status[Top(stk)] > 0
         /\ LET c == Top(stk)  child == Adj(c)[status[c]] IN
            /\ status' = [status EXCEPT ![c] = @ - 1]
            /\ IF status[child] = REMAINING THEN stk' = Append(stk, child) /\ UNCHANGED link
               ELSE /\ UNCHANGED stk
                    /\ link' = IF status[child] >= 0 THEN [link EXCEPT ![c] = MinI(@, tm[child])] ELSE link
         /\ U /\ UNCHANGED <<seed, cstk, tm, t, vert, comp>>
MNext == NextSeed \/ Enter \/ Leave \/ Visit
MSpec == MInit /\ [][MNext]_vars
Finished == seed = n
Correct == Finished => IsFlowOrder(vert, comp)
\* the emitted prefix is final: no cell is emitted before all that flow into its component from outside
PrefixClosed == \A k \in 1..(Len(comp) - 1) : \A i \in 1..comp[k + 1] : \A u \in Preds(vert[i]) : u \in {vert[x] : x \in 1..comp[k + 1]}
StacksFit == Len(stk) + Len(comp) <= n + 1          \* both live in one array of n+1 entries
=============================================================================
