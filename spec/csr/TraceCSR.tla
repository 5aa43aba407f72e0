------------------------------ MODULE TraceCSR ------------------------------
EXTENDS CSR, TraceLib
VARIABLE l
vars == <<m, counts, rows, vals, sorted, phase, l>>
Ev == Log[l]
Keep == UNCHANGED <<m, counts, rows, vals, sorted, phase>>
TInit == l = 1 /\ m = 0 /\ counts = <<>> /\ rows = <<>> /\ vals = <<>> /\ sorted = FALSE /\ phase = "none"
TNext == l <= LogLen /\ l' = l + 1 /\
    CASE Ev.e = "new"    -> Create(Ev.m, Ev.ia, Ev.nnz) /\ Ev.rows = Ev.m
      [] Ev.e = "known"  -> Known(Ev.m, Ev.rs) /\ Ev.rows = Ev.m /\ Ev.nnz = Sum([i \in 1..Ev.m |-> Len(Ev.rs[i])], Ev.m)
      [] Ev.e = "counts" -> CountAll(Ev.c)
      [] Ev.e = "fix"    -> Fix(Ev.ret, Ev.nnz, Ev.ia)
      [] Ev.e = "filled" -> Filled(Ev.rs, Ev.ia, Ev.ja)
      [] Ev.e = "sort"   -> SortRows(Ev.ia, Ev.ja)
      [] Ev.e = "index"  -> Keep /\ IsIndex(Ev.i, Ev.j, Ev.k)
      [] Ev.e = "zero"   -> Zero(Ev.ia, Ev.ja, Ev.sa)
      [] Ev.e = "vals"   -> SetVals(Ev.sa)
      [] Ev.e = "write"  -> Keep /\ Ev.list = Listing
      [] Ev.e = "vwrite" -> Keep /\ Ev.back = Ev.v
      [] Ev.e = "vzero"  -> Keep /\ Ev.v = [i \in DOMAIN Ev.v |-> IF i <= Ev.n THEN 0 ELSE 7]
      [] Ev.e = "badfile" -> Keep
      [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
