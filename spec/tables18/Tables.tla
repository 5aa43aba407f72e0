------------------------------- MODULE Tables -------------------------------
(* The four growable tables (boundary conditions, compressible boundary     *)
(* conditions, compressible sources, transport sources) and the manager     *)
(* that fills a boundary-condition table from the sides of a grid.          *)
(* A table is the sequence of the entries appended since it was created or  *)
(* last cleared; capacity and growth are not part of the state.             *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES tabs, grid      \* tabs: id -> [kind, np, rows]; grid: the grid last described
None == [kind |-> "none", np |-> 0, rows |-> <<>>]

Same == UNCHANGED grid
Put(id, t) == tabs' = [tabs EXCEPT ![id] = t]
Create(id, kind, np) == np > 0 /\ Put(id, [kind |-> kind, np |-> np, rows |-> <<>>]) /\ Same
\* a composition of the wrong length is refused and leaves the table alone
AppendRow(id, np, row, ok) ==
    LET t == tabs[id] IN
    IF np = t.np THEN ok = 1 /\ Put(id, [t EXCEPT !.rows = Append(@, row)]) /\ Same
                 ELSE ok # 1 /\ UNCHANGED tabs /\ Same
Clear(id) == Put(id, [tabs[id] EXCEPT !.rows = <<>>]) /\ Same
Destroy(id) == Put(id, None) /\ Same

(* ---- sides of a grid ---- *)
\* grid: [dims, cart, cells: seq of [gc, hf: seq of <<face, tag>>], face: seq of [nb: <<c1, c2>>, a: area]]
Coord(gc, d) == CASE d = 0 -> gc % grid.cart[1]
                  [] d = 1 -> (gc \div grid.cart[1]) % grid.cart[2]
                  [] OTHER -> gc \div (grid.cart[1] * grid.cart[2])
AtSide(gc, s) == Coord(gc, s \div 2) = IF s % 2 = 1 THEN grid.cart[s \div 2 + 1] - 1 ELSE 0
Outer(f) == grid.face[f + 1].nb[1] = -1 \/ grid.face[f + 1].nb[2] = -1
SideFaces(s) ==
    {f \in 0..(Len(grid.face) - 1) :
        Outer(f) /\ \E c \in DOMAIN grid.cells :
            AtSide(grid.cells[c].gc, s) /\ \E k \in DOMAIN grid.cells[c].hf : grid.cells[c].hf[k] = <<f, s>>}
RECURSIVE SumArea(_)
SumArea(S) == IF S = {} THEN 0 ELSE LET f == CHOOSE x \in S : TRUE IN grid.face[f + 1].a + SumArea(S \ {f})
Elems(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Elems(s)) = Len(s)

\* one condition with all the side's faces
PressureSide(id, s, p, rows) ==
    LET old == tabs[id].rows  n == Len(old) IN
    /\ Len(rows) = n + 1 /\ SubSeq(rows, 1, n) = old
    /\ rows[n + 1].t = 1 /\ rows[n + 1].v = p
    /\ NoDup(rows[n + 1].f) /\ Elems(rows[n + 1].f) = SideFaces(s)
    /\ Put(id, [tabs[id] EXCEPT !.rows = rows]) /\ Same
\* one condition per face, sharing the total in proportion to the areas
FluxSide(id, s, total, rows) ==
    LET old == tabs[id].rows  n == Len(old)  F == SideFaces(s)
        new == SubSeq(rows, n + 1, Len(rows)) IN
    /\ Len(rows) = n + Cardinality(F) /\ SubSeq(rows, 1, n) = old
    /\ \A i \in DOMAIN new : Len(new[i].f) = 1 /\ new[i].t = 2
    /\ {new[i].f[1] : i \in DOMAIN new} = F
    /\ \A i \in DOMAIN new : new[i].v * SumArea(F) = total * grid.face[new[i].f[1] + 1].a
    /\ Put(id, [tabs[id] EXCEPT !.rows = rows]) /\ Same
=============================================================================
