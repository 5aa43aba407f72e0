------------------------------- MODULE MCDeck -------------------------------
(* The reader consumes one token at a time into an array that starts as the  *)
(* defaults and stops when the record is full or ended.  It must come to the *)
(* same as laying the expanded tokens over the defaults.                     *)
EXTENDS Deck
CONSTANTS MaxTok, Width
VARIABLES toks, left, arr, pos, dn
vars == <<toks, left, arr, pos, dn, dvars>>
Alpha == {[k |-> "v", v |-> 5], [k |-> "v", v |-> 7], [k |-> "r", n |-> 2, v |-> 3], [k |-> "d", n |-> 1], [k |-> "d", n |-> 2], [k |-> "r", n |-> 1, v |-> 4]}
Def == [i \in 1..Width |-> -i]
Init == /\ toks \in UNION {[1..n -> Alpha] : n \in 0..MaxTok} /\ left = toks /\ arr = Def /\ pos = 0 /\ dn = FALSE
        /\ want = <<>> /\ skipped = {}
Put(a, p, c, v) == [i \in 1..Width |-> IF i > p /\ i <= p + c THEN v ELSE a[i]]
Fits1(c) == pos + c <= Width
TakeV == ~dn /\ left # <<>> /\ pos < Width /\ Head(left).k = "v" /\ arr' = Put(arr, pos, 1, Head(left).v) /\ pos' = pos + 1 /\ left' = Tail(left) /\ UNCHANGED <<toks, dn, dvars>>
TakeR == ~dn /\ left # <<>> /\ pos < Width /\ Head(left).k = "r" /\ arr' = Put(arr, pos, Head(left).n, Head(left).v) /\ pos' = pos + Head(left).n /\ left' = Tail(left) /\ UNCHANGED <<toks, dn, dvars>>
TakeD == ~dn /\ left # <<>> /\ pos < Width /\ Head(left).k = "d" /\ pos' = pos + Head(left).n /\ left' = Tail(left) /\ UNCHANGED <<toks, arr, dn, dvars>>
Stop == ~dn /\ (left = <<>> \/ pos >= Width) /\ dn' = TRUE /\ UNCHANGED <<toks, left, arr, pos, dvars>>
Next == TakeV \/ TakeR \/ TakeD \/ Stop
Spec == Init /\ [][Next]_vars
Laid == LET x == Expand(toks) IN [i \in 1..Width |-> IF i <= Len(x) /\ x[i].k = "v" THEN x[i].v ELSE Def[i]]
SameResult == dn => arr = Laid
\* a full table of keywords: every position shown has a dimension entry and a default entry
Kws == {"DENSITY", "EQUIL", "PVTW", "PLYROCK", "TLMIXPAR", "WELSPECS", "COMPDAT", "WCONINJE", "WCONPROD", "GCONINJE", "GCONPROD", "WGRUPCON", "WELTARG",
        "WPOLYMER", "FAULTS", "MULTFLT", "SPECGRID", "ENDSCALE"}
ASSUME \A kw \in Kws : Len(Dims(kw)) = Len(Defaults(kw))
=============================================================================
