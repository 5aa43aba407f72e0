------------------------------ MODULE SparseC ------------------------------
(* Sparse tables are sequences of rows; sparse vectors are maps from indices *)
(* 0..size-1 to values, zero where nothing was added.                        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES tb, sv     \* id -> sequence of rows;  id -> [n, idx, val]

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Cut(_, _)                       \* data cut into rows of the given sizes
Cut(d, sz) == IF sz = <<>> THEN <<>> ELSE <<SubSeq(d, 1, Head(sz))>> \o Cut(SubSeq(d, Head(sz) + 1, Len(d)), Tail(sz))
RECURSIVE Flat(_)
Flat(rs) == IF rs = <<>> THEN <<>> ELSE Head(rs) \o Flat(Tail(rs))
Admissible(d, sz) == Len(sz) >= 1 /\ (\A i \in DOMAIN sz : sz[i] >= 0) /\ Sum(sz) = Len(d)

(* ---- tables ---- *)
TSet(id, rows) == tb' = [tb EXCEPT ![id] = rows] /\ UNCHANGED sv
TNew(id) == TSet(id, <<>>)
TAssign(id, d, sz, ok) == ok = Admissible(d, sz) /\ TSet(id, IF ok THEN Cut(d, sz) ELSE <<>>)   \* a refused table is discarded
TAllocate(id, sz, rows) == Len(sz) >= 1 /\ Len(rows) = Len(sz) /\ (\A i \in DOMAIN sz : Len(rows[i]) = sz[i]) /\ TSet(id, rows)
TAppend(id, row) == TSet(id, Append(tb[id], row))
TClear(id) == TSet(id, <<>>)
TSwap(a, b) == tb' = [tb EXCEPT ![a] = tb[b], ![b] = tb[a]] /\ UNCHANGED sv
TCopy(a, b) == TSet(b, tb[a])
TWrite(id, r, c, v) == TSet(id, [tb[id] EXCEPT ![r] = [@ EXCEPT ![c] = v]])
TEqual(a, b, eq) == eq = (tb[a] = tb[b]) /\ UNCHANGED <<tb, sv>>
\* everything a table shows
TShown(t, o) == /\ o.rows = t /\ o.size = Len(t) /\ o.empty = (t = <<>>) /\ o.nd = Len(Flat(t))
                /\ o.flat = Flat(t) /\ o.sizes = [i \in DOMAIN t |-> Len(t[i])]

(* ---- vectors ---- *)
Increasing(ix, n) == \A i \in DOMAIN ix : ix[i] >= 0 /\ ix[i] < n /\ (i > 1 => ix[i - 1] < ix[i])
VSet(id, v) == sv' = [sv EXCEPT ![id] = v] /\ UNCHANGED tb
Zeros(n) == [n |-> n, idx |-> <<>>, val |-> <<>>]
VNew(id, n) == VSet(id, Zeros(n))
VMake(id, n, ix, vs, ok) == ok = (n >= 0 /\ Len(ix) = Len(vs) /\ Increasing(ix, n))
                            /\ VSet(id, IF ok THEN [n |-> n, idx |-> ix, val |-> vs] ELSE Zeros(0))
VAdd(id, i, v, ok) ==
    LET x == sv[id]  can == i >= 0 /\ i < x.n /\ (x.idx = <<>> \/ x.idx[Len(x.idx)] < i) IN
    ok = can /\ VSet(id, IF can THEN [x EXCEPT !.idx = Append(@, i), !.val = Append(@, v)] ELSE x)
VClear(id) == VSet(id, Zeros(0))
VCopy(a, b) == VSet(b, sv[a])
VEqual(a, b, eq) == eq = (sv[a] = sv[b]) /\ UNCHANGED <<tb, sv>>
At(x, i) == IF \E k \in DOMAIN x.idx : x.idx[k] = i THEN x.val[CHOOSE k \in DOMAIN x.idx : x.idx[k] = i] ELSE 0
VShown(x, o) == /\ o.n = x.n /\ o.empty = (x.n = 0) /\ o.nz = Len(x.idx) /\ o.idx = x.idx /\ o.val = x.val
                /\ o.els = [i \in 1..x.n |-> At(x, i - 1)]
\* reading outside is refused
VRead(id, i, ok, v) == LET x == sv[id] IN ok = (i >= 0 /\ i < x.n) /\ (ok => v = At(x, i)) /\ UNCHANGED <<tb, sv>>
=============================================================================
