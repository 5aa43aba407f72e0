----------------------------- MODULE TraceSparseC -----------------------------
EXTENDS SparseC, TraceLib
VARIABLE l
vars == <<tb, sv, l>>
Ev == Log[l]
Ids == 1..3
TInit == l = 1 /\ tb = [i \in Ids |-> <<>>] /\ sv = [i \in Ids |-> Zeros(0)]
TS == \A i \in Ids : TShown(tb'[i], Ev.t[i])
VS == \A i \in Ids : VShown(sv'[i], Ev.v[i])
TNext == l <= LogLen /\ l' = l + 1 /\
    CASE Ev.e = "new"       -> tb' = [i \in Ids |-> <<>>] /\ sv' = [i \in Ids |-> Zeros(0)]
      [] Ev.e = "tnew"      -> TNew(Ev.id) /\ TS
      [] Ev.e = "tassign"   -> TAssign(Ev.id, Ev.d, Ev.sz, Ev.ok) /\ TS
      [] Ev.e = "tallocate" -> TAllocate(Ev.id, Ev.sz, Ev.t[Ev.id].rows) /\ TS
      [] Ev.e = "tallocfail" -> Ev.sz = <<>> /\ ~Ev.ok /\ TNew(Ev.id) /\ TS
      [] Ev.e = "tappend"   -> TAppend(Ev.id, Ev.row) /\ TS
      [] Ev.e = "tclear"    -> TClear(Ev.id) /\ TS
      [] Ev.e = "tswap"     -> TSwap(Ev.a, Ev.b) /\ TS
      [] Ev.e = "tcopy"     -> TCopy(Ev.a, Ev.b) /\ TS
      [] Ev.e = "twrite"    -> TWrite(Ev.id, Ev.r, Ev.c, Ev.v) /\ TS
      [] Ev.e = "treserve"  -> UNCHANGED <<tb, sv>> /\ TS
      [] Ev.e = "tequal"    -> TEqual(Ev.a, Ev.b, Ev.eq)
      [] Ev.e = "vnew"      -> VNew(Ev.id, Ev.n) /\ VS
      [] Ev.e = "vmake"     -> VMake(Ev.id, Ev.n, Ev.ix, Ev.vs, Ev.ok) /\ VS
      [] Ev.e = "vadd"      -> VAdd(Ev.id, Ev.i, Ev.x, Ev.ok) /\ VS
      [] Ev.e = "vclear"    -> VClear(Ev.id) /\ VS
      [] Ev.e = "vcopy"     -> VCopy(Ev.a, Ev.b) /\ VS
      [] Ev.e = "vequal"    -> VEqual(Ev.a, Ev.b, Ev.eq)
      [] Ev.e = "vread"     -> VRead(Ev.id, Ev.i, Ev.ok, Ev.x)
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
