-------------------------------- MODULE Deck --------------------------------
(* How the records of a deck are read.  A record is a sequence of tokens:    *)
(*   [k |-> "v", v |-> n]          a number (in thousandths)                 *)
(*   [k |-> "r", n |-> c, v |-> n] c times the number ("c*n")                *)
(*   [k |-> "d", n |-> c]          c defaulted positions ("c*")              *)
(*   [k |-> "s", s |-> string]     a name or flag                            *)
(* Comments, line breaks, text after the terminator, and whether a keyword   *)
(* sits in an included file are layout: they do not appear here because they *)
(* must not matter.  Every keyword has a table of what each position holds,  *)
(* its default and its dimension.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES want,     \* keyword -> sequence of expected records [t, v, u]
          skipped   \* keywords without data
dvars == <<want, skipped>>

\* ------------------------------------------------------------ tokens
D == [k |-> "d"]
Reps(c, x) == [i \in 1..c |-> x]
RECURSIVE Expand(_)
Expand(toks) == IF toks = <<>> THEN <<>> ELSE LET t == Head(toks) IN
    (CASE t.k = "v" -> <<[k |-> "v", v |-> t.v]>>
       [] t.k = "r" -> Reps(t.n, [k |-> "v", v |-> t.v])
       [] t.k = "d" -> Reps(t.n, D)
       [] t.k = "s" -> <<[k |-> "s", s |-> t.s]>>) \o Expand(Tail(toks))
Text(x) == IF x.k = "v" THEN ToString(x.v) ELSE x.s

\* ------------------------------------------------------------ keywords
LengthVecs == {"COORD", "ZCORN", "DXV", "DYV", "DZV", "DEPTHZ", "TOPS"}
PermVecs == {"PERMX", "PERMY", "PERMZ", "PERMXX", "PERMYY", "PERMZZ", "PERMXY", "PERMYZ", "PERMZX"}
PlainVecs == {"PORO", "BULKMOD", "YOUNGMOD", "LAMEMOD", "SHEARMOD", "PWAVEMOD", "MULTPV", "SGAS", "SWAT", "SOIL",
              "RS", "SWCR", "SWL", "SWU", "SOWCR", "KRW", "KRWR", "KRO", "KRORW"}
IntVecs == {"ACTNUM", "SATNUM", "EQLNUM", "REGNUM", "ROCKTYPE", "DIMENS", "REGDIMS", "WELLDIMS", "TABDIMS", "FIPNUM"}
Vecs == LengthVecs \cup PermVecs \cup PlainVecs \cup IntVecs \cup {"PRESSURE"}
Cyclic == Vecs \cup {"PVDO", "PVDG", "ROCKTAB", "PVTO", "PVTG", "SWOF", "SGOF", "PLYVISC", "PLYADS", "PLYMAX", "ROCK", "TSTEP"}
\* dimensions of the positions of a record: some leading ones, then a period
Dims(kw) ==
    CASE kw \in LengthVecs -> <<"length">>
      [] kw \in PermVecs -> <<"perm">>
      [] kw = "PRESSURE" -> <<"pressure">>
      [] kw \in PlainVecs \cup IntVecs -> <<"none">>
      [] kw = "TSTEP" -> <<"time">>
      [] kw = "PVDO" -> <<"pressure", "lvf", "visc">>
      [] kw = "PVDG" -> <<"pressure", "gvf", "visc">>
      [] kw = "ROCKTAB" -> <<"pressure", "none", "none">>
      [] kw = "ROCK" -> <<"pressure", "compress">>
      [] kw \in {"SWOF", "SGOF"} -> <<"none", "none", "none", "pressure">>
      [] kw = "PLYVISC" -> <<"polydens", "none">>
      [] kw = "PLYADS" -> <<"polydens", "none">>
      [] kw = "PLYMAX" -> <<"polydens">>
      [] kw = "DENSITY" -> <<"density", "density", "density">>
      [] kw \in {"PVTW", "PVCDO"} -> <<"pressure", "lvf", "compress", "visc", "compress">>
      [] kw = "EQUIL" -> <<"length", "pressure", "length", "pressure", "length", "pressure", "none", "none", "none">>
      [] kw = "PLYROCK" -> <<"none", "none", "polydens", "none", "none">>
      [] kw = "TLMIXPAR" -> <<"none", "none">>
      [] kw = "ENPTVD" -> <<"length", "none", "none", "none", "none", "none", "none", "none", "none">>
      [] kw = "ENKRVD" -> <<"length", "none", "none", "none", "none", "none", "none", "none">>
      [] kw = "WELSPECS" -> <<"", "", "none", "none", "length", "">>
      [] kw = "COMPDAT" -> <<"", "none", "none", "none", "none", "", "none", "trans", "length">>
      [] kw = "WCONINJE" -> <<"", "", "", "", "rate", "rrate", "pressure", "pressure", "none", "rs">>
      [] kw = "WCONPROD" -> <<"", "", "", "lrate", "lrate", "grate", "lrate", "rrate", "pressure", "pressure", "none", "none">>
      [] kw = "GCONINJE" -> <<"", "", "", "rate", "rrate", "none", "none">>
      [] kw = "GCONPROD" -> <<"", "", "lrate", "lrate", "grate", "lrate", "", "", "", "", "", "", "", "rrate">>
      [] kw = "WGRUPCON" -> <<"", "", "none", "">>
      [] kw = "WELTARG" -> <<"", "", "target">>
      [] kw = "WPOLYMER" -> <<"", "polydens", "polydens", "", "">>
      [] kw = "FAULTS" -> <<"", "none", "none", "none", "none", "none", "none", "">>
      [] kw = "MULTFLT" -> <<"", "none", "none">>
      [] kw = "SPECGRID" -> <<"none", "none", "none", "none", "">>
      [] kw = "ENDSCALE" -> <<"", "", "none", "none">>
      [] OTHER -> [i \in 1..12 |-> ""]
Unit0(kw, i) ==
    CASE kw = "PVTO" -> IF i = 1 THEN "rs" ELSE <<"pressure", "lvf", "visc">>[((i - 2) % 3) + 1]
      [] kw = "PVTG" -> IF i = 1 THEN "pressure" ELSE <<"rv", "gvf", "visc">>[((i - 2) % 3) + 1]
      [] kw \in Cyclic -> LET d == Dims(kw) IN d[((i - 1) % Len(d)) + 1]
      [] OTHER -> Dims(kw)[i]
\* the dimension of a rate depends on the phase or the control it is for
TargetUnit(c) == CASE c \in {"ORAT", "WRAT", "LRAT"} -> "lrate" [] c = "GRAT" -> "grate" [] c = "RESV" -> "rrate" [] c \in {"BHP", "THP"} -> "pressure"
Unit(kw, rec, i) == LET u == Unit0(kw, i) IN
    CASE u = "rate" -> IF rec[2].s = "GAS" THEN "grate" ELSE "lrate"
      [] u = "target" -> TargetUnit(rec[2].s)
      [] OTHER -> u
NoLimit == "-1e20"
\* the positions a record shows, and the default of each ("" for positions that must be given)
Defaults(kw) ==
    CASE kw = "DENSITY" -> <<"-1e100", "-1e100", "-1e100">>
      [] kw = "EQUIL" -> <<"0", "0", "0", "0", "0", "0", "0", "0", "0">>
      [] kw \in {"PVTW", "PVCDO"} -> <<"", "", "", "", "0">>
      [] kw = "PLYROCK" -> <<"-1000", "-1000", "-1000", "1000", "-1000">>
      [] kw = "TLMIXPAR" -> <<"-1e100", "=1">>
      [] kw = "WELSPECS" -> <<"", "", "1000", "1000", "-1000", "">>
      [] kw = "COMPDAT" -> <<"", "", "", "", "", "", "-1000", "0", "0">>
      [] kw = "WCONINJE" -> <<"", "", "", "", NoLimit, NoLimit, "6891000", NoLimit, "0", "0">>
      [] kw = "WCONPROD" -> <<"", "", "", NoLimit, NoLimit, NoLimit, NoLimit, NoLimit, "1000", "0", "0", "0">>
      [] kw = "GCONINJE" -> <<"", "", "", NoLimit, NoLimit, "any", "any">>
      [] kw = "GCONPROD" -> <<"", "NONE", NoLimit, NoLimit, NoLimit, NoLimit, "NONE", "any", "any", "any", "any", "any", "any", NoLimit>>
      [] kw = "WGRUPCON" -> <<"", "YES", "any", "">>
      [] kw = "WELTARG" -> <<"", "", "">>
      [] kw = "WELOPEN" -> <<"", "">>
      [] kw = "WPOLYMER" -> <<"", "", "", "", "">>
      [] kw = "FAULTS" -> <<"", "", "", "", "", "", "", "">>
      [] kw = "MULTFLT" -> <<"", "1000", "1000">>
      [] kw = "SPECGRID" -> <<"1000", "1000", "1000", "1000", "F">>
      [] kw = "ENDSCALE" -> <<"NODIR", "REVERS", "1000", "20000">>
      [] kw = "SCALECRS" -> <<"NO">>
      [] kw \in {"TITLE", "START", "GRUPTREE"} -> <<"", "", "">>
      [] OTHER -> <<>>
Shown(kw, n) ==
    CASE kw \in Cyclic -> [i \in 1..n |-> i]
      [] kw = "GCONPROD" -> <<1, 2, 3, 4, 5, 6, 7, 14>>
      [] kw = "GCONINJE" -> <<1, 2, 3, 4, 5, 6, 7>>
      [] kw = "ENPTVD" -> <<1, 2, 3, 4, 8>>
      [] kw = "ENKRVD" -> <<1, 2, 4, 5, 8>>
      [] kw = "TITLE" -> <<1>>
      [] kw = "GRUPTREE" -> <<1, 2>>
      [] kw = "START" -> <<1, 2, 3>>
      [] OTHER -> [i \in 1..Len(Defaults(kw)) |-> i]
\* ------------------------------------------------------------ values of a record
Value(kw, x, i) == IF i <= Len(x) /\ x[i].k # "d" THEN (IF kw = "SCALECRS" /\ x[i].s \in {"Y", "YES"} THEN "YES" ELSE Text(x[i]))
                   ELSE LET d == Defaults(kw)[i] IN IF d = "=1" THEN Text(x[1]) ELSE d
Plain(kw, t, x) == LET sh == Shown(kw, Len(x)) IN
    [t |-> t, v |-> [j \in 1..Len(sh) |-> Value(kw, x, sh[j])], u |-> [j \in 1..Len(sh) |-> Unit(kw, x, sh[j])]]
\* tables in which defaulted entries are interpolated between the rows above and below
Interp(row, n, x, y(_)) ==
    IF y(row).k = "v" THEN ToString(y(row).v)
    ELSE LET lo == {r \in 1..(row - 1) : y(r).k = "v"}
             hi == {r \in (row + 1)..n : y(r).k = "v"}
             l == CHOOSE r \in lo : \A q \in lo : q <= r
             h == CHOOSE r \in hi : \A q \in hi : q >= r
         IN  IF lo = {} \/ hi = {} THEN "any"
             ELSE ToString(y(l).v + ((y(h).v - y(l).v) * (x[row] - x[l])) \div (x[h] - x[l]))
AllDefault(n, y(_)) == \A r \in 1..n : y(r).k = "d"
\* SWOF, SGOF: one record holds the table, row by row
RelPerm(kw, t, x) == LET n == Len(x) \div 4
                         xs == [r \in 1..n |-> x[4 * (r - 1) + 1].v]
                         cell(r, c) == x[4 * (r - 1) + c]
                         val(i) == LET r == ((i - 1) \div 4) + 1  c == ((i - 1) % 4) + 1
                                   IN  IF c = 1 THEN ToString(xs[r])
                                       ELSE IF AllDefault(n, LAMBDA q : cell(q, c)) THEN "0" ELSE Interp(r, n, xs, LAMBDA q : cell(q, c))
                     IN [t |-> t, v |-> [i \in 1..(4 * n) |-> val(i)], u |-> [i \in 1..(4 * n) |-> Unit(kw, x, i)]]
\* ENPTVD, ENKRVD: one record per row; the rows of a table share t
EndPoint(kw, rows) == LET n == Len(rows)
                          sh == Shown(kw, 0)
                          xs == [r \in 1..n |-> rows[r].x[1].v]
                          cell(r, c) == rows[r].x[c]
                      IN [r \in 1..n |-> [t |-> rows[r].t,
                            v |-> [j \in 1..Len(sh) |-> IF j = 1 THEN ToString(xs[r]) ELSE IF AllDefault(n, LAMBDA q : cell(q, sh[j])) THEN "-1000"
                                                        ELSE Interp(r, n, xs, LAMBDA q : cell(q, sh[j]))],
                            u |-> [j \in 1..Len(sh) |-> Dims(kw)[sh[j]]]]]
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE ByTable(_, _, _)
ByTable(kw, recs, t) == LET mine == SelectSeq(recs, LAMBDA r : r.t = t) IN IF mine = <<>> THEN <<>> ELSE EndPoint(kw, mine) \o ByTable(kw, recs, t + 1)
Records(kw, recs) ==
    CASE kw \in {"SWOF", "SGOF"} -> [i \in 1..Len(recs) |-> RelPerm(kw, recs[i].t, Expand(recs[i].k))]
      [] kw \in {"ENPTVD", "ENKRVD"} -> ByTable(kw, [i \in 1..Len(recs) |-> [t |-> recs[i].t, x |-> Expand(recs[i].k)]], recs[1].t)
      [] OTHER -> [i \in 1..Len(recs) |-> Plain(kw, recs[i].t, Expand(recs[i].k))]
\* ------------------------------------------------------------ transitions
NewDeck == want' = <<>> /\ skipped' = {}
\* arrays are replaced when given again, everything else is added to
Block(kw, recs) == LET new == Records(kw, recs)  old == IF kw \in DOMAIN want THEN want[kw] ELSE <<>> IN
    /\ want' = [k \in DOMAIN want \cup {kw} |-> IF k # kw THEN want[k] ELSE IF kw \in Vecs THEN new ELSE old \o new]
    /\ UNCHANGED skipped
Skip(kw) == skipped' = skipped \cup {kw} /\ UNCHANGED want
\* ------------------------------------------------------------ what the reader shows: [t, v, d] per record, d the dimensions that fit
Zero == {"0", "-0"}
Fits(w, o) == /\ o.t = w.t /\ Len(o.v) = Len(w.v)
              /\ \A i \in 1..Len(w.v) : w.v[i] = "any" \/ o.v[i] = w.v[i]
              /\ \A i \in 1..Len(w.v) : w.u[i] = "" \/ o.v[i] \in Zero \/ \E q \in 1..Len(o.d[i]) : o.d[i][q] = w.u[i]
Shows(kw, o) == kw \in DOMAIN want /\ Len(o) = Len(want[kw]) /\ \A i \in 1..Len(o) : Fits(want[kw][i], o[i])
=============================================================================
