----------------------------- MODULE MCGroups -----------------------------
(* Three small systems, every measurement over a few rates and pressures:   *)
(* a failed check always has a remedy, a remedy changes one thing, shares   *)
(* add up to the target and closed wells stay closed.                       *)
EXTENDS Groups, TLC
CONSTANTS Sys, MaxOps, RateSet, BhpSet, Gen, GenDepth
VARIABLES stage, m, ops, hist
mv == <<cfg, cur, closed, gctl, pact, iact, stage, m, ops, hist>>
C(t, v, d) == [t |-> t, v |-> v, d |-> d]
Grp(par, pm, im, pl, il, proc, it) == [par |-> par, pm |-> pm, im |-> im, pl |-> pl, il |-> il, proc |-> proc, it |-> it, rf |-> 2, vf |-> 4]
Well(par, kind, grup, gr, c, ctrls) == [par |-> par, kind |-> kind, grup |-> grup, closed |-> FALSE, gr |-> gr, cur |-> c, ctrls |-> ctrls]
No5 == <<-1, -1, -1, -1, -1>>
No2 == <<-1, -1>>
Systems == <<
  \* a field of two producers and an injector that replaces what they produce
  [np |-> 2, pos |-> <<1, 2, 0>>,
   groups |-> <<Grp(0, "ORAT", "VREP", <<8, -1, -1, 12, -1>>, <<8, -1>>, "RATE", 1)>>,
   wells |-> <<Well(1, "P", TRUE, 1, 0, <<C("SURF", -4, <<0, 1>>), C("BHP", 2, <<>>)>>),
               Well(1, "P", FALSE, 2, 1, <<C("BHP", 2, <<>>), C("RESV", -8, <<1, 1>>)>>),
               Well(1, "I", TRUE, 1, 0, <<C("BHP", 1, <<>>)>>)>>],
  \* a group inside a group: the inner one closes its worst well
  [np |-> 2, pos |-> <<1, 2, 0>>,
   groups |-> <<Grp(0, "NONE", "NONE", <<-1, -1, -1, -1, 12>>, No2, "RATE", 1), Grp(1, "FLD", "NONE", <<4, 4, -1, -1, -1>>, No2, "WELL", 1)>>,
   wells |-> <<Well(2, "P", FALSE, 1, 1, <<C("BHP", 2, <<>>)>>), Well(2, "P", FALSE, 3, 2, <<C("BHP", 1, <<>>), C("SURF", -8, <<1, 1>>)>>),
               Well(1, "P", FALSE, 2, 1, <<C("SURF", -8, <<1, 0>>)>>)>>],
  \* injectors sharing a target through a subgroup, reinjection below the root
  [np |-> 2, pos |-> <<0, 1, 2>>,
   groups |-> <<Grp(0, "NONE", "NONE", No5, <<12, -1>>, "NONE", 3), Grp(1, "GRAT", "REIN", <<-1, -1, 4, -1, -1>>, No2, "NONE", 3)>>,
   wells |-> <<Well(2, "I", TRUE, 1, 0, <<C("SURF", 8, <<1, 1>>), C("BHP", 1, <<>>)>>), Well(2, "I", TRUE, 2, 0, <<C("BHP", 1, <<>>)>>),
               Well(2, "P", TRUE, 1, 0, <<C("BHP", 2, <<>>)>>)>>] >>

RECURSIVE Str(_)
Str(q) == IF q = <<>> THEN "" ELSE ToString(Head(q)) \o " " \o Str(Tail(q))
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Cat(Tail(q))
B(x) == IF x THEN "1 " ELSE "0 "
GLine(g) == "G " \o ToString(g.par) \o " " \o g.pm \o " " \o g.im \o " " \o Str(g.pl) \o Str(g.il) \o g.proc \o " " \o Str(<<g.it, g.rf, g.vf>>) \o "; "
CLine(c) == c.t \o " " \o Str(<<c.v>>) \o Str(c.d)
WLine(w) == "W " \o ToString(w.par) \o " " \o w.kind \o " " \o B(w.grup) \o B(w.closed) \o Str(<<w.gr, w.cur, Len(w.ctrls)>>)
            \o Cat([i \in DOMAIN w.ctrls |-> CLine(w.ctrls[i])]) \o "; "
CfgLine(c) == "begin " \o Str(<<c.np>>) \o Str(c.pos) \o "; " \o Cat([i \in DOMAIN c.groups |-> GLine(c.groups[i])])
              \o Cat([i \in DOMAIN c.wells |-> WLine(c.wells[i])]) \o "go ; "
MLine(x) == "m " \o Cat([w \in DOMAIN x.bhp |-> Str(<<x.bhp[w]>>) \o Str(x.res[w]) \o Str(x.surf[w])]) \o "; "
H(x) == hist' = IF Gen THEN hist \o x ELSE hist

NoMeas == [bhp |-> <<>>, res |-> <<>>, surf |-> <<>>]
MInit == /\ \E k \in Sys : cfg = Systems[k]
         /\ cur = [w \in DOMAIN cfg.wells |-> cfg.wells[w].cur] /\ closed = [w \in DOMAIN cfg.wells |-> FALSE]
         /\ gctl = [w \in DOMAIN cfg.wells |-> NoShare]
         /\ pact = [g \in DOMAIN cfg.groups |-> cfg.groups[g].pm] /\ iact = [g \in DOMAIN cfg.groups |-> cfg.groups[g].im]
         /\ stage = 0 /\ m = NoMeas /\ ops = 0 /\ hist = IF Gen THEN CfgLine(cfg) ELSE ""
DoApply == stage = 0 /\ ApplyAll /\ stage' = 1 /\ UNCHANGED m /\ ops' = ops + 1 /\ H("apply ; ")
\* wells that are closed or follow nothing have no rates
Measure == /\ stage = 1 /\ ops < MaxOps
           /\ \E b \in [Wells -> BhpSet], q \in [Wells -> RateSet] :
                LET Q(w) == IF closed[w] \/ cur[w] = 0 THEN 0 ELSE (IF cfg.wells[w].kind = "P" THEN -1 ELSE 1) * q[w] IN
                m' = [bhp |-> [w \in Wells |-> b[w]], res |-> [w \in Wells |-> <<Q(w), 0>>], surf |-> [w \in Wells |-> <<Q(w), Q(w)>>]]
           /\ stage' = 2 /\ ops' = ops + 1 /\ UNCHANGED gvars /\ hist' = hist
Fin(x) == stage' = 1 /\ m' = NoMeas /\ UNCHANGED ops /\ H(MLine(m) \o x)
DoPass == stage = 2 /\ CheckPass(m) /\ Fin("check ; ")
DoSwitch == stage = 2 /\ (\E w \in Wells : SwitchWell(w, m)) /\ Fin("check ; ")
DoLimitI == stage = 2 /\ (\E g \in Groups, k \in 1..2 : LimitI(g, k, m)) /\ Fin("check ; ")
DoLimitP == stage = 2 /\ (\E g \in Groups, k \in 1..5 : LimitP(g, k, m)) /\ Fin("check ; ")
DoWorst == stage = 2 /\ (\E g \in Groups, k \in 1..5, w \in Wells : ShutWorst(g, k, m, w)) /\ Fin("check ; ")
DoReplace == stage = 2 /\ RGroups # {} /\ Replace(m) /\ Fin("replace ; ")
Rest == stage = 1 /\ ops = MaxOps /\ UNCHANGED mv
MNext == DoApply \/ Measure \/ DoPass \/ DoSwitch \/ DoLimitI \/ DoLimitP \/ DoWorst \/ DoReplace \/ Rest
MSpec == MInit /\ [][MNext]_mv
GenSpec == MInit /\ [][ops <= MaxOps /\ MNext]_mv
Emit == ~(stage = 1 /\ ops = GenDepth) \/ PrintT("@@" \o hist)

\* a check never gets stuck: it passes, or something it may do exists
Remedy == stage = 2 => \/ Passes(m) \/ (\E w \in Wells : Exceeded(w, m) # {})
                       \/ \E g \in Groups : /\ (ExceededP(g, m) # {} \/ ExceededI(g, m) # {})
                                              /\ Calm(g, m)
                                              /\ (ExceededI(g, m) # {} \/ cfg.groups[g].proc # "WELL" \/ Open(Kind(g, "P")) # {})
Shut1 == [][\A w \in Wells : closed[w] => closed'[w] /\ cur'[w] = cur[w]]_mv
Changed == {w \in Wells : cur'[w] # cur[w] \/ closed'[w] # closed[w]}
One == [][DoSwitch \/ DoWorst => Cardinality(Changed) <= 1]_mv
\* shares of a target among open wells add up to it (never beyond it, if closed wells count)
RECURSIVE NumSum(_)
NumSum(S) == SumOver([w \in Wells |-> Abs(gctl'[w].num)], S)
Adds == [][\A g \in Groups :
    /\ \A k \in 1..2 : (stage = 2 /\ LimitI(g, k, m)) => LET S == Open(Kind(g, "I")) IN S # {} =>
          LET den == gctl'[CHOOSE w \in S : TRUE].den IN
          /\ NumSum(S) <= cfg.groups[g].il[k] * den
          /\ (S = Kind(g, "I") => NumSum(S) = cfg.groups[g].il[k] * den)
    /\ \A k \in 1..5 : (stage = 2 /\ LimitP(g, k, m)) => LET S == Open(Kind(g, "P")) IN S # {} =>
          LET den == gctl'[CHOOSE w \in S : TRUE].den IN
          /\ NumSum(S) <= cfg.groups[g].pl[k] * den
          /\ (S = Kind(g, "P") => NumSum(S) = cfg.groups[g].pl[k] * den)]_mv
\* what is replaced is the fraction of what is produced
Replaced == [][\A g \in Groups : (DoReplace /\ g \in RGroups) =>
    LET S == Grouped(Kind(g, "I")) IN (S # {} /\ Open(S) = S) => NumSum(S) = Produced(g, m) * Quarters(g) * (gctl'[CHOOSE w \in S : TRUE].den \div 4)]_mv
GroupsFollow == \A w \in Wells : cur[w] = GC => gctl[w].den > 0 /\ (cfg.wells[w].kind = "P" => gctl[w].num <= 0) /\ (cfg.wells[w].kind = "I" => gctl[w].num >= 0)
=============================================================================
