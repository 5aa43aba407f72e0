---------------------------- MODULE TraceRoots ----------------------------
EXTENDS Roots, TraceLib
VARIABLES l, S
vars == <<l, S>>
Ev == Log[l]
None == [kind |-> "none"]
ToSet(s) == {s[i] : i \in DOMAIN s}
AsPoint == <<Ev.x, Ev.s, Ev.m>>
(* ------------------------------ the finder ------------------------------ *)
Ask == S' = [kind |-> "ask", todo |-> ToSet(Ev.ends), ab |-> {Ev.ends[1], Ev.ends[2]}, max |-> Ev.max, throws |-> Ev.throws, E |-> {}, B |-> {}, prev |-> {}, steps |-> 0, loose |-> {}, done |-> FALSE]
Lo(T) == CHOOSE x \in T : \A y \in T : x <= y
Hi(T) == CHOOSE x \in T : \A y \in T : x >= y
Loose(T) == IF Ev.loose THEN T \cup {Ev.x} ELSE T
\* the ends (and the guess) are looked at first, once each
Eval == \/ /\ Ev.x \in S.todo /\ S.steps = 0
           /\ LET K == S.E \cup {AsPoint} IN S' = [S EXCEPT !.todo = @ \ {Ev.x}, !.E = K, !.B = Brackets(K), !.loose = Loose(@)]
        \/ /\ S.todo = {} /\ S.B # {} /\ S.steps <= S.max
           /\ LET N == Narrowed(S.B, Ev.x, Ev.s) IN
              /\ N # {} /\ S' = [S EXCEPT !.B = N, !.prev = S.B, !.steps = @ + 1, !.loose = Loose(@),
                                 !.done = @ \/ (Ev.tight /\ S.steps < S.max)]
Converged == Ev.x \in S.loose \/ Settled(S.B, Ev.x, ToSet(Ev.near))
Limit == S.todo = {} /\ S.B # {} /\ S.steps >= S.max /\ ~S.done
Unbracketed == S.todo = {} /\ S.B = {} /\ S.steps = 0
Size(x) == (CHOOSE p \in S.E : p[1] = x)[3]
BestEnd == /\ \E p \in S.E : p[1] = Ev.x
           /\ \A y \in S.ab : Size(Ev.x) <= Size(y)
Answer == /\ IF Ev.threw THEN S.throws /\ (Limit \/ Unbracketed)
             ELSE \/ Converged
                  \/ ~S.throws /\ Unbracketed /\ BestEnd
                  \/ ~S.throws /\ Limit /\ \E b \in S.B \cup (IF S.steps > S.max THEN S.prev ELSE {}) : Inside(b, Ev.x)
          /\ ~Ev.threw => Ev.used = S.steps
          /\ S' = None
(* ------------------------------ the search ------------------------------ *)
Search == S' = [kind |-> "search", from |-> Ev.from, E |-> {}, tries |-> 0]
SignSeen(p, q) == p[2] * q[2] <= 0
Changed == (\E p, q \in S.E : p # q /\ p[2] * q[2] <= 0) = TRUE
Look == \/ S.E = {} /\ Ev.x = S.from /\ S' = [S EXCEPT !.E = {AsPoint}]
        \* until a change of sign is seen
        \/ S.E # {} /\ ~Changed /\ S' = [S EXCEPT !.E = @ \cup {AsPoint}, !.tries = @ + 1]
BothSides == (\E p, q \in S.E : p[1] < S.from /\ q[1] > S.from) = TRUE
Found == /\ IF Ev.threw THEN S.tries >= 100 /\ ~Changed /\ BothSides
            ELSE (Ev.a < Ev.b /\ \E p, q \in S.E : p[1] = Ev.a /\ q[1] = Ev.b /\ SignSeen(p, q)) = TRUE
         /\ S' = None
TInit == l = 1 /\ S = None
TNext == l <= LogLen /\ l' = l + 1 /\
    CASE Ev.e = "ask" -> Ask
      [] Ev.e = "search" -> Search
      [] Ev.e = "eval" /\ S.kind = "ask" -> Eval
      [] Ev.e = "eval" /\ S.kind = "search" -> Look
      [] Ev.e = "answer" /\ S.kind = "ask" -> Answer
      [] Ev.e = "found" /\ S.kind = "search" -> Found
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
