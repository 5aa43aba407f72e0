------------------------------ MODULE MCTimer ------------------------------
(* The clock as the code keeps it (a running sum) against the clock of the  *)
(* specification, over every history of advancing, jumping and restarting.  *)
EXTENDS Timer, TLC
CONSTANTS Lens, MaxSteps, MaxOps
VARIABLES now, ops
mv == <<steps, pos, total, start, now, ops>>
Lists == UNION {[1..k -> Lens] : k \in 0..MaxSteps}
MInit == steps \in Lists /\ pos = 0 /\ total = SumTo(steps, Len(steps)) /\ start = 0 /\ now = 0 /\ ops = 0
DoAdvance == \E ok \in BOOLEAN : Advance(ok) /\ now' = (IF ok THEN now + steps[pos + 1] ELSE now) /\ ops' = ops + 1
DoSet == \E k \in -1..(MaxSteps + 1), ok \in BOOLEAN : Set(k, ok) /\ now' = (IF ok THEN SumTo(steps, k) ELSE now) /\ ops' = ops + 1
DoInit == \E s \in Lists : InitSteps(s, 0, TRUE) /\ now' = 0 /\ ops' = ops + 1
DoTotal == SetTotal(9) /\ ops' = ops + 1 /\ UNCHANGED now
MNext == DoAdvance \/ DoSet \/ DoInit \/ DoTotal
Bound == ops < MaxOps
MSpec == MInit /\ [][MNext]_mv
Clock == now = Time
EndsAtTotal == Done => now = SumTo(steps, Len(steps))
Monotone == [][(\E ok \in BOOLEAN : Advance(ok)) => now' >= now]_mv
=============================================================================
