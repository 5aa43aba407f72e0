------------------------------ MODULE Schedule ------------------------------
(* How a deck becomes a sequence of epochs.  The reader takes one keyword at *)
(* a time.  A keyword carrying special data belongs to the epoch being       *)
(* built; if time steps have been given since that epoch was begun, it first *)
(* begins a new epoch, which inherits everything.  Time-advancing keywords   *)
(* add steps to the epoch being built; DATES are turned into the lengths     *)
(* between them.  Other keywords (grid arrays, ignored and unknown ones)     *)
(* belong to no epoch and begin none.                                        *)
(*                                                                           *)
(* Times are in quarter days; a record is the string the reader shows for it.*)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt
VARIABLES ep,      \* sequence of epochs: [f |-> special fields, s |-> steps, t |-> steps seen]
          mode,    \* "regular" or "steps"
          now,     \* time reached, quarter days after the start date
          start,   \* day number of the start date, -1 when no steps were seen
          others,  \* keywords without epoch
          cur      \* the epoch being shown (0-based)
svars == <<ep, mode, now, start, others, cur>>

\* days since 1900-01-01 in the Gregorian calendar
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m \in {4, 6, 9, 11} THEN 30 ELSE IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE 31
RECURSIVE MonthDays(_, _)
MonthDays(y, m) == IF m = 1 THEN 0 ELSE MonthDays(y, m - 1) + MonthLen(y, m - 1)
YearDays(y) == LET p == y - 1 IN 365 * (y - 1900) + (p \div 4 - p \div 100 + p \div 400) - (1899 \div 4 - 1899 \div 100 + 1899 \div 400)
DayNum(d) == YearDays(d[1]) + MonthDays(d[1], d[2]) + d[3] - 1

Empty == [f |-> <<>>, s |-> <<>>, t |-> FALSE]
Begin == ep' = <<Empty>> /\ mode' = "regular" /\ now' = 0 /\ start' = -1 /\ others' = {} /\ cur' = 0

\* how a keyword met again combines with what the epoch has
Merge(kw, old, recs) == CASE kw = "START" -> recs
                          [] kw = "GRUPTREE" -> SelectSeq(old, LAMBDA o : \A r \in Range(recs) : r[1] # o[1]) \o
                                                 SelectSeq(recs, LAMBDA r : TRUE)
                          [] OTHER -> old \o recs
Put(f, kw, recs) == LET old == IF kw \in DOMAIN f THEN f[kw] ELSE <<>>
                    IN  [k \in DOMAIN f \cup {kw} |-> IF k = kw THEN Merge(kw, old, recs) ELSE f[k]]
Special(kw, recs) ==
    LET e0 == ep[Len(ep)]
        e1 == [e0 EXCEPT !.f = Put(e0.f, kw, recs)]
    IN  /\ ep' = IF mode = "steps" THEN Append(ep, e1) ELSE [ep EXCEPT ![Len(ep)] = e1]
        /\ mode' = "regular"
        /\ UNCHANGED <<now, start, others, cur>>
StartDay == LET e == ep[Len(ep)].f IN IF "START" \in DOMAIN e THEN DayNum(e["START"][1]) ELSE DayNum(<<1983, 1, 1>>)
Advance(steps, t) ==
    /\ ep' = [ep EXCEPT ![Len(ep)].s = @ \o steps, ![Len(ep)].t = TRUE]
    /\ mode' = "steps" /\ now' = t
    /\ start' = IF start = -1 THEN StartDay ELSE start
    /\ UNCHANGED <<others, cur>>
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
TimeSteps(s) == Advance(s, now + Sum(s))
Dates(ds) ==
    LET st == IF start = -1 THEN StartDay ELSE start
        at(i) == IF i = 0 THEN now ELSE 4 * (DayNum(ds[i]) - st)
    IN  Advance([i \in 1..Len(ds) |-> at(i) - at(i - 1)], at(Len(ds)))
Other(kw) == others' = others \cup {kw} /\ UNCHANGED <<ep, mode, now, start, cur>>
\* choosing what to look at
Visit(k, ok) == /\ ok = (k >= 0 /\ k < Len(ep))
                /\ cur' = IF ok THEN k ELSE cur
                /\ UNCHANGED <<ep, mode, now, start, others>>
Fields(e) == DOMAIN e.f \cup others \cup (IF e.t THEN {"TSTEP"} ELSE {})

\* ---------------------------------------------------------------- properties
\* an epoch that has been left never changes
Frozen == \A i \in 1..(Len(ep) - 1) : i <= Len(ep') => ep'[i] = ep[i]
\* an epoch shows everything its predecessor shows, plus something new at its end
Inherits == \A i \in 1..(Len(ep) - 1) :
    /\ \A kw \in DOMAIN ep[i].f : kw \in DOMAIN ep[i + 1].f
    /\ \A kw \in DOMAIN ep[i].f \ {"GRUPTREE", "START"} : IsPrefix(ep[i].f[kw], ep[i + 1].f[kw])
    /\ IsPrefix(ep[i].s, ep[i + 1].s)
    /\ ep[i].t /\ ep[i].f # ep[i + 1].f
TimeIsSum == now = Sum(ep[Len(ep)].s)
=============================================================================
