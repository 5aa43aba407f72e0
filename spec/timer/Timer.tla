------------------------------- MODULE Timer -------------------------------
(* The simulation clock: a list of steps and a position in it. Time is in   *)
(* quarter days. A timer that is initialised again keeps its position until *)
(* it is told a step number, so that position is "unknown" here.            *)
EXTENDS Integers, Sequences
VARIABLES steps, pos, total, start    \* pos = -1: unknown; start: day number or -1
vars0 == <<steps, pos, total, start>>
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
Time == SumTo(steps, pos)
Done == pos = Len(steps)

InitSteps(s, d, fresh) == /\ steps' = s /\ total' = SumTo(s, Len(s)) /\ start' = d
                          /\ pos' = IF fresh THEN 0 ELSE -1
\* accepted exactly for 0..number of steps; a refused number changes nothing
Set(k, ok) == /\ ok = (k >= 0 /\ k <= Len(steps))
              /\ pos' = IF ok THEN k ELSE pos
              /\ UNCHANGED <<steps, total, start>>
Advance(ok) == /\ pos >= 0 /\ ok = ~Done
               /\ pos' = IF ok THEN pos + 1 ELSE pos
               /\ UNCHANGED <<steps, total, start>>
SetTotal(t) == total' = t /\ UNCHANGED <<steps, pos, start>>

\* what the clock shows; the current step's length only while not done
Shows(o) ==
    /\ o.n = Len(steps) /\ o.total = total
    /\ pos >= 0 =>
       /\ o.step = pos /\ o.time = Time /\ o.done = Done
       /\ o.lenok = ~Done /\ (~Done => o.len = steps[pos + 1])
       /\ (start >= 0 => o.day = start + (Time \div 4) /\ o.sec = (Time % 4) * 21600)
=============================================================================
