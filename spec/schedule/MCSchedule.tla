----------------------------- MODULE MCSchedule -----------------------------
EXTENDS Schedule, TLC
CONSTANTS Kws, Ids, MaxItems, GenDepth
VARIABLE n, hist
vars == <<svars, n, hist>>
Bump(s) == n' = n + 1 /\ hist' = IF GenDepth = 0 THEN "" ELSE hist \o s \o ";"
MInit == ep = <<Empty>> /\ mode = "regular" /\ now = 0 /\ start = -1 /\ others = {} /\ cur = 0 /\ n = 0 /\ hist = ""
Rec(kw, id) == IF kw = "GRUPTREE" THEN <<"G" \o ToString(id), "P" \o ToString(n)>> ELSE kw \o ToString(id)
DoSpecial == \E kw \in Kws, id \in Ids : Special(kw, <<Rec(kw, id)>>) /\ Bump("K " \o kw \o " " \o ToString(id))
DoStart   == \E d \in {<<1999, 12, 31>>, <<2000, 2, 28>>} : start = -1 /\ Special("START", <<d>>) /\ Bump("S " \o ToString(d[1]))
DoSteps   == \E s \in {<<4>>, <<1, 6>>, <<>>} : TimeSteps(s) /\ Bump("T " \o (IF s = <<>> THEN "0" ELSE IF Len(s) = 1 THEN "1" ELSE "2"))
DoDates   == \E k \in {1, 2} : LET b == IF start = -1 THEN StartDay ELSE start
                                   dn == b + ((now + 3) \div 4) + k
                                   y == CHOOSE yy \in 1983..2100 : YearDays(yy) <= dn /\ dn < YearDays(yy + 1)
                                   m == CHOOSE mm \in 1..12 : YearDays(y) + MonthDays(y, mm) <= dn /\ dn < YearDays(y) + MonthDays(y, mm) + MonthLen(y, mm)
                                   d == <<y, m, dn - YearDays(y) - MonthDays(y, m) + 1>>
                               IN  Dates(<<d>>) /\ Bump("D " \o ToString(k))
DoOther   == \E kw \in {"PORO", "XYZZY"} : Other(kw) /\ Bump("O " \o kw)
DoVisit   == \E k \in {-1, 0, 1, 2} : GenDepth = 0 /\ Visit(k, k >= 0 /\ k < Len(ep)) /\ Bump("")
MNext == DoSpecial \/ DoStart \/ DoSteps \/ DoDates \/ DoOther \/ DoVisit
Bound == n < MaxItems
MSpec == MInit /\ [][MNext]_vars
PFrozen == [][Frozen]_vars
CalendarOK == /\ DayNum(<<1900, 1, 1>>) = 0 /\ DayNum(<<1901, 1, 1>>) = 365 /\ DayNum(<<2000, 3, 1>>) - DayNum(<<2000, 2, 28>>) = 2
              /\ DayNum(<<1970, 1, 1>>) = 25567 /\ DayNum(<<2100, 3, 1>>) - DayNum(<<2100, 2, 28>>) = 1
ASSUME CalendarOK
Emit == n # GenDepth \/ PrintT("@@" \o hist)
=============================================================================
