------------------------------ MODULE MCWells ------------------------------
(* Exhaustive exploration with small constants.  The same module generates  *)
(* behaviours for replay in the code (configuration GenWells.cfg).          *)
EXTENDS Wells, TLC, Json
CONSTANTS Handles, NP, MaxW, MaxC, MaxD, GenDepth
VARIABLE hist
vars == <<col, hist>>
Distrs == {<<>>} \cup {<<[i \in 1..NP |-> IF i = k THEN 1 ELSE 0]>> : k \in 1..NP}
Comps  == {<<>>, <<[i \in 1..NP |-> i]>>}
Cells  == {<<>>, <<7>>, <<3, 5>>}
WIs(c) == {<<>>, <<[i \in 1..Len(c) |-> 10 * i]>>}
MInit == col = [h \in Handles |-> NoWells] /\ hist = <<>>
H(r) == hist' = IF GenDepth = 0 THEN <<>> ELSE Append(hist, r)
DoCreate  == \E h \in Handles : Create(h, NP) /\ H([e |-> "create", h |-> h, np |-> NP, nw |-> 0, nperf |-> 0])
DoAdd     == \E h \in Handles, ty \in {0, 1}, comp \in Comps, c \in Cells : \E wi \in WIs(c) :
                NW(h) < MaxW /\ LET d == NW(h) + 1 IN
                AddWell(h, ty, d, comp, c, wi, IF d % 2 = 0 THEN "" ELSE "W") /\
                H([e |-> "add", h |-> h, type |-> ty, depth |-> d, comp |-> comp, cells |-> c, wi |-> wi, name |-> IF d % 2 = 0 THEN "" ELSE "W"])
DoAppend  == \E h \in Handles, ty \in {0, 2}, distr \in Distrs : \E w \in 1..NW(h) :
                Len(col[h].wells[w].ctrls) < MaxC /\
                LET t == 100 * w + Len(col[h].wells[w].ctrls) IN
                AppendControl(h, w, ty, t, distr) /\ H([e |-> "append", h |-> h, w |-> w, type |-> ty, target |-> t, distr |-> distr])
DoCurrent == \E h \in Handles : \E w \in 1..NW(h) : \E c \in -2..(MaxC - 1) :
                SetCurrent(h, w, c) /\ H([e |-> "current", h |-> h, w |-> w, c |-> c])
DoClear   == \E h \in Handles : \E w \in 1..NW(h) : ClearControls(h, w) /\ H([e |-> "clear", h |-> h, w |-> w])
DoClone   == \E h, g \in Handles : h # g /\ Clone(h, g) /\ H([e |-> "clone", h |-> h, g |-> g])
DoDestroy == \E h \in Handles : Destroy(h) /\ H([e |-> "destroy", h |-> h])
MNext == DoCreate \/ DoAdd \/ DoAppend \/ DoCurrent \/ DoClear \/ DoClone \/ DoDestroy
MSpec == MInit /\ [][MNext]_vars
PMonotone == [][Monotone]_vars
POneAtATime == [][OneAtATime]_vars
Bound == TLCGet("level") <= MaxD
\* generation: print the history when it has the wanted length
GenNext == Len(hist) < GenDepth /\ MNext
GenSpec == MInit /\ [][GenNext]_vars
Emit == Len(hist) < GenDepth \/ PrintT("@@" \o ToJson(hist))
=============================================================================
