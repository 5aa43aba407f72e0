------------------------------ MODULE MCRoots ------------------------------
(* The finder may evaluate anywhere in its bracket; f is any sign pattern.   *)
EXTENDS Roots, TLC
CONSTANTS N, MaxIter
VARIABLES f, E, B, steps, mode, res
vars == <<f, E, B, steps, mode, res>>
P == 0..N
Init == /\ f \in [P -> {-1, 1}] /\ E = {} /\ B = {} /\ steps = 0 /\ mode = "start" /\ res = -1
Near(x) == {y \in P : y - x \in {-1, 0, 1}}
Ends == {0, N}
Start == /\ mode = "start"
         /\ \E G \in {{}} \cup {{g} : g \in P} :
              LET K == {<<p, f[p], 1>> : p \in Ends \cup G} IN
              E' = K /\ B' \in {{b} : b \in Brackets(K)} \cup (IF Brackets(K) = {} THEN {{}} ELSE {})
         /\ mode' = "step" /\ UNCHANGED <<f, steps, res>>
Step == /\ mode = "step" /\ B # {} /\ steps <= MaxIter
        /\ \E b \in B : \E x \in (b[1]+1)..(b[3]-1) : B' = Narrowed(B, x, f[x]) /\ E' = E \cup {<<x, f[x], 1>>}
        /\ steps' = steps + 1 /\ UNCHANGED <<f, mode, res>>
Answer == /\ mode = "step" /\ B # {} /\ steps <= MaxIter
          /\ \E x \in P : Settled(B, x, Near(x)) /\ res' = x
          /\ mode' = "found" /\ UNCHANGED <<f, E, B, steps>>
GiveUp == /\ mode = "step" /\ steps > MaxIter /\ mode' = "limit" /\ UNCHANGED <<f, E, B, steps, res>>
Refuse == /\ mode = "step" /\ B = {} /\ mode' = "unbracketed" /\ UNCHANGED <<f, E, B, steps, res>>
Next == Start \/ Step \/ Answer \/ GiveUp \/ Refuse
Spec == Init /\ [][Next]_vars
Kept == \A b \in B : b[1] < b[3] /\ f[b[1]] = b[2] /\ f[b[3]] = b[4] /\ b[2] # b[4] /\ b[1] >= 0 /\ b[3] <= N
Right == mode = "found" => \E y \in Near(res), z \in Near(res) : f[y] # f[z]
Fair == mode = "unbracketed" => f[0] = f[N]
Patient == mode = "limit" => steps > MaxIter
Shrinks == [][mode = "step" /\ mode' = "step" => \A b \in B, c \in B' : c[1] >= b[1] /\ c[3] <= b[3] /\ c[3] - c[1] < b[3] - b[1]]_vars
=============================================================================
