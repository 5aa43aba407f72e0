------------------------------- MODULE Groups -------------------------------
(* Wells in a tree of groups. Every well has limits of its own, one of which *)
(* is active; a well may instead follow a share of its group's target; a     *)
(* closed well follows nothing. Rates and targets are whole numbers; a share *)
(* is the fraction num/den.                                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Scale       \* recorded control targets are in units of 1/Scale
VARIABLES cfg,       \* phases, groups and wells as they were set up
          cur,       \* well -> own control number, 0 (none yet) or GC (group's share)
          closed,    \* well -> BOOLEAN
          gctl,      \* well -> the share last imposed on it
          pact, iact \* group -> production / injection control in force
gvars == <<cfg, cur, closed, gctl, pact, iact>>
GC == 100
NoShare == [t |-> "none", num |-> 0, den |-> 1, d |-> <<>>]
PModes == <<"ORAT", "WRAT", "GRAT", "LRAT", "RESV">>
IModes == <<"RATE", "RESV">>
Groups == DOMAIN cfg.groups
Wells == DOMAIN cfg.wells
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})

\* ---- the tree
RECURSIVE Anc(_)     \* a group and the groups above it
Anc(g) == IF g = 0 THEN {} ELSE {g} \cup Anc(cfg.groups[g].par)
Below(g) == {h \in Groups : g \in Anc(h)}
WellsOf(g) == {w \in Wells : g \in Anc(cfg.wells[w].par)}
Kind(g, k) == {w \in WellsOf(g) : cfg.wells[w].kind = k}
Open(S) == {w \in S : ~closed[w]}
Grouped(S) == {w \in S : cfg.wells[w].grup}
Rates(S) == [w \in Wells |-> cfg.wells[w].gr]

\* ---- controls
Unit(p) == [q \in 1..cfg.np |-> IF q = p THEN 1 ELSE 0]
Ones == [q \in 1..cfg.np |-> 1]
Distr(m) == CASE m = "ORAT" -> Unit(cfg.pos[2]) [] m = "WRAT" -> Unit(cfg.pos[1]) [] m = "GRAT" -> Unit(cfg.pos[3])
              [] m = "LRAT" -> [q \in 1..cfg.np |-> IF q \in {cfg.pos[1], cfg.pos[2]} THEN 1 ELSE 0]
              [] OTHER -> Ones
CType(m) == IF m = "RESV" THEN "RESV" ELSE "SURF"
Dot(d, r) == SumOver([q \in 1..cfg.np |-> d[q] * r[q]], 1..cfg.np)
\* the share of well w in a target num/den given to the wells S
Share(w, S, m, num, den) ==
    [t |-> CType(m), d |-> Distr(m), den |-> den * SumOver(Rates(S), S),
     num |-> (IF cfg.wells[w].kind = "P" THEN -1 ELSE 1) * num * cfg.wells[w].gr]
\* A target for the wells S. Closed wells stay closed; whether their guide
\* rates count is left open.
Impose(S, m, num, den) ==
    \E D \in {S, Open(S)} :
        /\ (D = {} => S = {})
        /\ gctl' = [w \in Wells |-> IF w \in Open(S) THEN Share(w, D, m, num, den) ELSE gctl[w]]
        /\ cur' = [w \in Wells |-> IF w \in Open(S) THEN GC ELSE cur[w]]

\* ---- limits
Exceeds(w, i, m) ==
    LET c == cfg.wells[w].ctrls[i]
    IN  CASE c.t = "BHP" -> (IF cfg.wells[w].kind = "P" THEN m.bhp[w] < c.v ELSE m.bhp[w] > c.v)
          [] c.t = "RESV" -> Abs(Dot(c.d, m.res[w])) > Abs(c.v)
          [] OTHER -> Abs(Dot(c.d, m.surf[w])) > Abs(c.v)
Exceeded(w, m) == IF closed[w] \/ cur[w] = 0 THEN {}
                  ELSE {i \in DOMAIN cfg.wells[w].ctrls : i # cur[w] /\ Exceeds(w, i, m)}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
PRate(w, mode, m) == Abs(Dot(Distr(mode), IF mode = "RESV" THEN m.res[w] ELSE m.surf[w]))
IRate(w, mode, m) == Dot(Ones, IF mode = "RESV" THEN m.res[w] ELSE m.surf[w])
GroupP(g, mode, m) == SumOver([w \in Wells |-> PRate(w, mode, m)], Kind(g, "P"))
GroupI(g, mode, m) == SumOver([w \in Wells |-> IRate(w, mode, m)], Kind(g, "I"))
ExceededP(g, m) == {k \in 1..5 : pact[g] # PModes[k] /\ cfg.groups[g].pl[k] >= 0 /\ GroupP(g, PModes[k], m) > cfg.groups[g].pl[k]}
ExceededI(g, m) == {k \in 1..2 : iact[g] # IModes[k] /\ cfg.groups[g].il[k] >= 0 /\ GroupI(g, IModes[k], m) > cfg.groups[g].il[k]}
\* nothing below the group exceeds anything
Calm(g, m) == /\ \A w \in WellsOf(g) : Exceeded(w, m) = {}
              /\ \A h \in Below(g) \ {g} : ExceededP(h, m) = {} /\ ExceededI(h, m) = {}

\* ---- transitions
\* Targets given by the deck: a group under a rate control of its own shares it
\* among the wells that are under group control.
PTargets == {g \in Groups : pact[g] \in {PModes[k] : k \in 1..5}}
ITargets == {g \in Groups : iact[g] \in {IModes[k] : k \in 1..2}}
Index(s, x) == CHOOSE k \in DOMAIN s : s[k] = x
ApplyAll ==
    \E DP \in [PTargets -> BOOLEAN], DI \in [ITargets -> BOOLEAN] :
      LET Members(g, k, all) == LET S == Grouped(Kind(g, k)) IN IF all THEN S ELSE Open(S)
          PG(w) == {g \in PTargets : w \in Open(Grouped(Kind(g, "P")))}
          IG(w) == {g \in ITargets : w \in Open(Grouped(Kind(g, "I")))}
          The(S) == CHOOSE g \in S : TRUE
      IN  /\ gctl' = [w \in Wells |->
                IF PG(w) # {} THEN LET g == The(PG(w)) IN Share(w, Members(g, "P", DP[g]), pact[g], cfg.groups[g].pl[Index(PModes, pact[g])], 1)
                ELSE IF IG(w) # {} THEN LET g == The(IG(w)) IN Share(w, Members(g, "I", DI[g]), iact[g], cfg.groups[g].il[Index(IModes, iact[g])], 1)
                ELSE gctl[w]]
          /\ cur' = [w \in Wells |-> IF PG(w) # {} \/ IG(w) # {} THEN GC ELSE cur[w]]
          /\ UNCHANGED <<cfg, closed, pact, iact>>

Passes(m) == (\A w \in Wells : Exceeded(w, m) = {}) /\ (\A g \in Groups : ExceededP(g, m) = {} /\ ExceededI(g, m) = {})
CheckPass(m) == Passes(m) /\ UNCHANGED gvars
SwitchWell(w, m) == /\ Exceeded(w, m) # {}
                    /\ cur' = [cur EXCEPT ![w] = First(Exceeded(w, m))]
                    /\ UNCHANGED <<cfg, closed, gctl, pact, iact>>
LimitI(g, k, m) == /\ k \in ExceededI(g, m) /\ Calm(g, m)
                   /\ Impose(Kind(g, "I"), IModes[k], cfg.groups[g].il[k], 1)
                   /\ iact' = [h \in Groups |-> IF h = g THEN IModes[k] ELSE IF h \in Below(g) THEN "FLD" ELSE iact[h]]
                   /\ UNCHANGED <<cfg, closed, pact>>
LimitP(g, k, m) == /\ k \in ExceededP(g, m) /\ Calm(g, m)
                   /\ cfg.groups[g].proc = "RATE"
                   /\ Impose(Kind(g, "P"), PModes[k], cfg.groups[g].pl[k], 1)
                   /\ pact' = [h \in Groups |-> IF h = g THEN PModes[k] ELSE IF h \in Below(g) THEN "FLD" ELSE pact[h]]
                   /\ UNCHANGED <<cfg, closed, iact>>
ShutWorst(g, k, m, w) == /\ k \in ExceededP(g, m) /\ Calm(g, m)
                         /\ cfg.groups[g].proc = "WELL"
                         /\ w \in Open(Kind(g, "P"))
                         /\ \A v \in Open(Kind(g, "P")) : PRate(v, PModes[k], m) <= PRate(w, PModes[k], m)
                         /\ closed' = [closed EXCEPT ![w] = TRUE]
                         /\ UNCHANGED <<cfg, cur, gctl, pact, iact>>
NoRemedy(g, k, m) == /\ k \in ExceededP(g, m) /\ Calm(g, m)
                     /\ cfg.groups[g].proc = "NONE"
                     /\ UNCHANGED gvars
CheckFail(m) == ~Passes(m) /\
    (\/ \E w \in Wells : SwitchWell(w, m)
     \/ \E g \in Groups : \/ \E k \in 1..2 : LimitI(g, k, m)
                          \/ \E k \in 1..5 : LimitP(g, k, m) \/ NoRemedy(g, k, m)
                          \/ \E k \in 1..5, w \in Wells : ShutWorst(g, k, m, w))
Check(m, ok) == IF ok THEN CheckPass(m) ELSE CheckFail(m)

\* Replacement: the injectors under group control share what is produced.
RGroups == {g \in Groups : iact[g] \in {"REIN", "VREP"}}
Produced(g, m) ==
    IF iact[g] = "VREP" THEN SumOver([w \in Wells |-> -Dot(Ones, m.res[w])], Kind(g, "P"))
    ELSE SumOver([w \in Wells |-> -m.surf[w][cfg.pos[cfg.groups[g].it]]], Kind(g, "P"))
Quarters(g) == IF iact[g] = "VREP" THEN cfg.groups[g].vf ELSE cfg.groups[g].rf
Replace(m) ==
    \E DI \in [RGroups -> BOOLEAN] :
      LET RG(w) == {g \in RGroups : w \in Open(Grouped(Kind(g, "I")))}
          The(S) == CHOOSE g \in S : TRUE
          S(g) == IF DI[g] THEN Grouped(Kind(g, "I")) ELSE Open(Grouped(Kind(g, "I")))
      IN  /\ gctl' = [w \in Wells |-> IF RG(w) = {} THEN gctl[w]
                        ELSE LET g == The(RG(w)) IN Share(w, S(g), IF iact[g] = "VREP" THEN "RESV" ELSE "RATE", Produced(g, m) * Quarters(g), 4)]
          /\ cur' = [w \in Wells |-> IF RG(w) = {} THEN cur[w] ELSE GC]
          /\ UNCHANGED <<cfg, closed, pact, iact>>
\* A target imposed directly on a group: on all its wells of that kind, or only
\* on those under group control.
Told(g, k, mode, target, forced) ==
    LET S == IF forced THEN Kind(g, k) ELSE Grouped(Kind(g, k)) IN
    IF S = {} \/ ~(forced \/ (IF k = "P" THEN pact[g] ELSE iact[g]) \in {"FLD", "NONE"}) THEN UNCHANGED gvars
    ELSE /\ Impose(S, mode, target, 1)
         /\ IF k = "P" THEN pact' = [h \in Groups |-> IF h \in Below(g) THEN "FLD" ELSE pact[h]] /\ UNCHANGED iact
                       ELSE iact' = [h \in Groups |-> IF h \in Below(g) THEN "FLD" ELSE iact[h]] /\ UNCHANGED pact
         /\ UNCHANGED <<cfg, closed>>
Shut(w) == closed' = [closed EXCEPT ![w] = TRUE] /\ UNCHANGED <<cfg, cur, gctl, pact, iact>>

\* ---- what the wells structure shows: o = [c |-> controls, cur |-> number from 0 or negative]
\* recorded targets are rounded to whole units
Same(c, v, den, o) == o.t = c.t /\ (IF den = 0 THEN o.v = v ELSE 2 * Abs(o.v * den - v * Scale) <= den) /\ (c.t # "BHP" => o.d = c.d)
ShowsWell(w, o) ==
    LET own == cfg.wells[w].ctrls IN
    /\ Len(o.c) >= Len(own)
    /\ \A i \in DOMAIN own : Same(own[i], own[i].v, 1, o.c[i])
    /\ IF closed[w] \/ cur[w] = 0 THEN o.cur < 0
       ELSE IF cur[w] = GC THEN /\ o.cur >= Len(own) /\ o.cur < Len(o.c)
                                /\ Same(gctl[w], gctl[w].num, gctl[w].den, o.c[o.cur + 1])
       ELSE o.cur = cur[w] - 1
Shows(ws) == Len(ws) = Len(cfg.wells) /\ \A w \in Wells : ShowsWell(w, ws[w])
\* taking over what the structure shows, where another property speaks of it
Adopt(ws) ==
    /\ cur' = [w \in Wells |-> IF ws[w].cur < 0 THEN cur[w] ELSE IF ws[w].cur < Len(cfg.wells[w].ctrls) THEN ws[w].cur + 1 ELSE GC]
    /\ gctl' = [w \in Wells |-> IF ws[w].cur >= 0 /\ ws[w].cur < Len(ws[w].c)
                                THEN LET o == ws[w].c[ws[w].cur + 1] IN [t |-> o.t, d |-> o.d, num |-> o.v, den |-> 0] ELSE gctl[w]]
    /\ closed' = [w \in Wells |-> ws[w].cur < 0 /\ (closed[w] \/ cur[w] # 0)]
    /\ UNCHANGED <<cfg, pact, iact>>
Start(c) == /\ cfg' = c
            /\ cur' = [w \in DOMAIN c.wells |-> c.wells[w].cur]
            /\ closed' = [w \in DOMAIN c.wells |-> c.wells[w].closed]
            /\ gctl' = [w \in DOMAIN c.wells |-> NoShare]
            /\ pact' = [g \in DOMAIN c.groups |-> c.groups[g].pm]
            /\ iact' = [g \in DOMAIN c.groups |-> c.groups[g].im]
=============================================================================
