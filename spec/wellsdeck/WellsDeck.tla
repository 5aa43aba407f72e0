----------------------------- MODULE WellsDeck -----------------------------
(* What the records of a deck say about its wells. A deck is a record of    *)
(* lists, one per keyword, each in the order of the deck:                   *)
(*   specs  [w, g, i, j, dep]          name, group, location, depth (-1: not given)      *)
(*   comp   [ws, i, j, k1, k2, wi]     completions of the wells ws (0: location or layer *)
(*                                     not given)                         *)
(*   inje   [w, t, shut, mode, v, bhp, thp]  v = <<RATE, RESV>>, -1 where not given     *)
(*   prod   [w, shut, mode, v, bhp, thp]     v = <<ORAT, WRAT, GRAT, LRAT, RESV>>       *)
(*   flags  [w, shut]                  later openings and closings        *)
(*   tree   [c, p]   gprod [g, mode, v, proc]   ginj [g, t, mode, v, rf, vf]            *)
(*   guide  [w, gr]                                                          *)
(* with the grid's extent dims, its cells act (Cartesian place -> cell or   *)
(* -1) and the depths cz of its cells.                                      *)
EXTENDS Groups, SequencesExt, FiniteSetsExt
VARIABLE deck
InjModes == <<"RATE", "RESV", "BHP">>
ProdModes == <<"ORAT", "WRAT", "GRAT", "LRAT", "RESV", "BHP">>

Ix(s, x) == CHOOSE k \in DOMAIN s : s[k] = x
Of(list, w) == {k \in DOMAIN list : list[k].w = w}
Named(list, w) == Of(list, w) # {}
LastOf(list, w) == list[Max(Of(list, w))]
\* wells in the order in which they are first named
RECURSIVE FirstNames(_, _)
FirstNames(list, seen) ==
    IF list = <<>> THEN <<>>
    ELSE IF Head(list).w \in seen THEN FirstNames(Tail(list), seen)
    ELSE <<Head(list).w>> \o FirstNames(Tail(list), seen \cup {Head(list).w})
Names(d) == FirstNames(d.specs, {})
NameSet(d) == {d.specs[k].w : k \in DOMAIN d.specs}

\* ---- completions
\* a completion record names the layers of one column; a name ending in a
\* star stands for the wells in ws
Column(d, c, w) ==
    LET s == LastOf(d.specs, w)
        i == IF c.i = 0 THEN s.i ELSE c.i
        j == IF c.j = 0 THEN s.j ELSE c.j
        k1 == IF c.k1 = 0 THEN 1 ELSE c.k1
        k2 == IF c.k2 = 0 THEN d.dims[3] ELSE c.k2
    IN  [n \in 1..(k2 - k1 + 1) |-> <<i, j, k1 + n - 1>>]
Inside(d, p) == \A x \in 1..3 : p[x] >= 1 /\ p[x] <= d.dims[x]
CellAt(d, p) == IF Inside(d, p) THEN d.act[(p[1] - 1) + d.dims[1] * ((p[2] - 1) + d.dims[2] * (p[3] - 1)) + 1] ELSE -1
Completions(d, w) == SelectSeq(d.comp, LAMBDA c : w \in c.ws)
\* without a given factor the index is computed: Peaceman's, shown as a ratio
Computed == -1000
RECURSIVE Perfs(_, _, _)
Perfs(d, w, list) ==
    IF list = <<>> THEN <<>>
    ELSE LET col == Column(d, Head(list), w)
         IN  [n \in DOMAIN col |-> [c |-> CellAt(d, col[n]), wi |-> IF Head(list).wi > 0 THEN Head(list).wi ELSE Computed]] \o Perfs(d, w, Tail(list))
Perforations(d, w) == Perfs(d, w, Completions(d, w))
Depth(d, w) ==
    LET s == LastOf(d.specs, w) p == Perforations(d, w)
    IN  IF s.dep >= 0 THEN s.dep ELSE Min({d.cz[p[n].c + 1] : n \in DOMAIN p})

\* ---- controls: one for each limit given
UnitD(d, p) == [q \in 1..d.np |-> IF q = d.pos[p] THEN 1 ELSE 0]
OnesD(d) == [q \in 1..d.np |-> 1]
Lim(given, mode, t, v, dd) == IF given THEN <<[mode |-> mode, t |-> t, v |-> v, d |-> dd]>> ELSE <<>>
InjLimits(d, r) ==
    Lim(r.v[1] >= 0, "RATE", "SURF", r.v[1], OnesD(d)) \o Lim(r.v[2] >= 0, "RESV", "RESV", r.v[2], OnesD(d))
    \o Lim(r.bhp > 0, "BHP", "BHP", r.bhp, <<>>)
ProdLimits(d, r) ==
    Lim(r.v[1] >= 0, "ORAT", "SURF", -r.v[1], UnitD(d, 2)) \o Lim(r.v[2] >= 0, "WRAT", "SURF", -r.v[2], UnitD(d, 1))
    \o Lim(r.v[3] >= 0, "GRAT", "SURF", -r.v[3], UnitD(d, 3))
    \o Lim(r.v[4] >= 0, "LRAT", "SURF", -r.v[4], [q \in 1..d.np |-> IF q \in {d.pos[1], d.pos[2]} THEN 1 ELSE 0])
    \o Lim(r.v[5] >= 0, "RESV", "RESV", -r.v[5], OnesD(d)) \o Lim(r.bhp > 0, "BHP", "BHP", r.bhp, <<>>)
IsInj(d, w) == Named(d.inje, w)
Record(d, w) == IF IsInj(d, w) THEN LastOf(d.inje, w) ELSE LastOf(d.prod, w)
Limits(d, w) == IF IsInj(d, w) THEN InjLimits(d, Record(d, w)) ELSE ProdLimits(d, Record(d, w))
Has1(lims, mode) == \E k \in DOMAIN lims : lims[k].mode = mode
\* closed by its record, unless a later flag says otherwise
IsShut(d, w) == IF Named(d.flags, w) THEN LastOf(d.flags, w).shut ELSE Record(d, w).shut

\* ---- groups
GroupNames(d) ==
    SetToSeq({d.specs[k].g : k \in {Max(Of(d.specs, w)) : w \in NameSet(d)}}
             \cup {d.tree[k].c : k \in DOMAIN d.tree} \cup {d.tree[k].p : k \in DOMAIN d.tree})
ParentName(d, g) == IF \E k \in DOMAIN d.tree : d.tree[k].c = g THEN d.tree[CHOOSE k \in DOMAIN d.tree : d.tree[k].c = g].p ELSE ""
WellGroup(d, w) == LastOf(d.specs, w).g
Par(gs, p) == IF p = "" THEN 0 ELSE Ix(gs, p)
LastG(list, g) == list[Max({k \in DOMAIN list : list[k].g = g})]
InG(list, g) == \E k \in DOMAIN list : list[k].g = g
GroupOf(d, gs, g) ==
    LET P == InG(d.gprod, g) I == InG(d.ginj, g)
        p == IF P THEN LastG(d.gprod, g) ELSE [mode |-> "NONE", v |-> <<-1, -1, -1, -1, -1>>, proc |-> "NONE"]
        i == IF I THEN LastG(d.ginj, g) ELSE [mode |-> "NONE", v |-> <<-1, -1>>, t |-> 1, rf |-> 4, vf |-> 4]
    IN  [par |-> Par(gs, ParentName(d, g)), pm |-> p.mode, im |-> i.mode, pl |-> p.v, il |-> i.v,
         proc |-> p.proc, it |-> i.t, rf |-> i.rf, vf |-> i.vf]
WellOf(d, gs, w) ==
    LET r == Record(d, w) lims == Limits(d, w) grup == r.mode = "GRUP"
    IN  [par |-> Ix(gs, WellGroup(d, w)), kind |-> IF IsInj(d, w) THEN "I" ELSE "P", grup |-> grup,
         closed |-> IsShut(d, w), gr |-> IF Named(d.guide, w) THEN LastOf(d.guide, w).gr ELSE 1,
         cur |-> IF grup THEN 0 ELSE CHOOSE k \in DOMAIN lims : lims[k].mode = r.mode,
         ctrls |-> [k \in DOMAIN lims |-> [t |-> lims[k].t, v |-> lims[k].v, d |-> lims[k].d]]]
Setup(d) == LET gs == GroupNames(d) ns == Names(d) IN
    [np |-> d.np, pos |-> d.pos, groups |-> [k \in DOMAIN gs |-> GroupOf(d, gs, gs[k])], wells |-> [k \in DOMAIN ns |-> WellOf(d, gs, ns[k])]]

\* ---- what cannot be built
Unknown(list, d) == \E k \in DOMAIN list : list[k].w \notin NameSet(d)
BadCompletion(d) ==
    \E k \in DOMAIN d.comp : d.comp[k].ws \cap NameSet(d) = {}
        \/ \E w \in d.comp[k].ws \cap NameSet(d) : LET col == Column(d, d.comp[k], w) IN \E n \in DOMAIN col : CellAt(d, col[n]) < 0
BadRecord(d, r, lims) == r.thp > 0 \/ (r.mode # "GRUP" /\ ~Has1(lims, r.mode))
BadInj(d) == \E k \in DOMAIN d.inje : \/ d.pos[d.inje[k].t] = 0
                                      \/ Named(d.prod, d.inje[k].w)
                                      \/ BadRecord(d, d.inje[k], InjLimits(d, d.inje[k]))
BadProd(d) == \E k \in DOMAIN d.prod : LET r == d.prod[k] IN
                \/ \E n \in 1..3 : r.v[n] >= 0 /\ d.pos[<<2, 1, 3>>[n]] = 0
                \/ (r.v[4] >= 0 /\ (d.pos[1] = 0 \/ d.pos[2] = 0))
                \/ BadRecord(d, r, ProdLimits(d, r))
Refused(d) == BadCompletion(d) \/ Unknown(d.inje, d) \/ Unknown(d.prod, d) \/ Unknown(d.flags, d) \/ Unknown(d.guide, d) \/ BadInj(d) \/ BadProd(d)

\* ---- transitions
Given(d) == /\ deck' = d
            /\ IF Refused(d) THEN UNCHANGED gvars ELSE Start(Setup(d))
\* the groups' targets are applied to the wells that ask for it
Built == ~Refused(deck) /\ ApplyAll /\ UNCHANGED deck
Rejected == Refused(deck) /\ UNCHANGED <<deck, gvars>>

\* ---- what is seen of the wells: o = [w, par, kind, dep, frac, perf, c, cur]
ShowsRecord(w, o) ==
    /\ o.w = w
    /\ o.par = WellGroup(deck, w)
    /\ o.kind = (IF IsInj(deck, w) THEN "I" ELSE "P")
    /\ o.dep = Depth(deck, w)
    /\ (IsInj(deck, w) => o.frac = UnitD(deck, Record(deck, w).t))
    /\ o.perf = Perforations(deck, w)
ShowsDeck(ws) == LET ns == Names(deck) IN Len(ws) = Len(ns) /\ \A k \in DOMAIN ns : ShowsRecord(ns[k], ws[k])
\* groups: o = [g, p, pl, il, rf, vf, proc], p = "" at the top
ShowsGroup(o) ==
    LET g == GroupOf(deck, GroupNames(deck), o.g) IN
    /\ o.p = ParentName(deck, o.g)
    /\ o.pl = g.pl /\ o.il = g.il /\ (InG(deck.gprod, o.g) => o.proc = g.proc)
    /\ (g.im = "REIN" => o.rf = g.rf) /\ (g.im = "VREP" => o.vf = g.vf)
ShowsTree(gs) == /\ {gs[k].g : k \in DOMAIN gs} = Range(GroupNames(deck))
                 /\ \A k \in DOMAIN gs : ShowsGroup(gs[k])
=============================================================================
