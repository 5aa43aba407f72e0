------------------------------ MODULE GridFile ------------------------------
(* The text form of a grid: a header of counts followed by one block of       *)
(* numbers per array.  Numbers are in eighths (an index n is written 8n); a    *)
(* word that is not a number is the token Word.                               *)
EXTENDS Integers, Sequences, FiniteSets
Word == -2000000001
HeaderLen == 8
HeaderAt(t) == [dims |-> t[1] \div 8, nc |-> t[2] \div 8, nf |-> t[3] \div 8, nn |-> t[4] \div 8, nfn |-> t[5] \div 8, ncf |-> t[6] \div 8,
                tagged |-> t[7] # 0, mapped |-> t[8] # 0]
Whole(x) == x # Word /\ x % 8 = 0
\* the blocks in the order they stand in the file: name, how many numbers, whether they are indices
Layout(h) == << <<"cartdims", h.dims, TRUE>>, <<"nodes", h.dims * h.nn, FALSE>>,
                <<"facenodepos", h.nf + 1, TRUE>>, <<"facenodes", h.nfn, TRUE>>, <<"facecells", 2 * h.nf, TRUE>>,
                <<"areas", h.nf, FALSE>>, <<"facecentroids", h.dims * h.nf, FALSE>>, <<"normals", h.dims * h.nf, FALSE>>,
                <<"cellfacepos", h.nc + 1, TRUE>>, <<"cellfaces", IF h.tagged THEN 2 * h.ncf ELSE h.ncf, TRUE>>,
                <<"map", IF h.mapped THEN h.nc ELSE 0, TRUE>>, <<"volumes", h.nc, FALSE>>, <<"cellcentroids", h.dims * h.nc, FALSE>> >>
RECURSIVE Before(_, _)
Before(L, k) == IF k = 1 THEN HeaderLen ELSE Before(L, k-1) + L[k-1][2]
Total(h) == Before(Layout(h), Len(Layout(h)) + 1)
Index(L, name) == CHOOSE k \in DOMAIN L : L[k][1] = name
Block(t, h, name) == LET L == Layout(h) k == Index(L, name) b == Before(L, k) IN SubSeq(t, b + 1, b + L[k][2])
Ints(s) == [i \in DOMAIN s |-> s[i] \div 8]
HeaderReadable(t) == Len(t) >= HeaderLen /\ (\A i \in 1..HeaderLen : Whole(t[i])) /\ \A i \in 1..6 : t[i] >= 0
\* every number that must be there is there
Complete(t) == /\ HeaderReadable(t)
               /\ LET h == HeaderAt(t) IN
                  h.dims <= 3 /\ Len(t) >= Total(h) /\ \A i \in 1..Total(h) : t[i] # Word
\* the counts of the header are those of the blocks
Consistent(t) == LET h == HeaderAt(t) IN
                 /\ Block(t, h, "facenodepos")[h.nf + 1] = 8 * h.nfn
                 /\ Block(t, h, "cellfacepos")[h.nc + 1] = 8 * h.ncf
Readable(t) == Complete(t) /\ Consistent(t)
CartDims(t, h) == LET d == Ints(Block(t, h, "cartdims")) IN [i \in 1..3 |-> IF i <= h.dims THEN d[i] ELSE 1]
Odd(s) == [i \in 1..(Len(s) \div 2) |-> s[2*i - 1]]
Even(s) == [i \in 1..(Len(s) \div 2) |-> s[2*i]]
GridOf(t) == LET h == HeaderAt(t) B(n) == Block(t, h, n) I(n) == Ints(B(n)) IN
    [dims |-> h.dims, nc |-> h.nc, nf |-> h.nf, nn |-> h.nn, cartdims |-> CartDims(t, h), nodes |-> B("nodes"),
     facenodepos |-> I("facenodepos"), facenodes |-> I("facenodes"), facecells |-> I("facecells"), areas |-> B("areas"),
     facecentroids |-> B("facecentroids"), normals |-> B("normals"), cellfacepos |-> I("cellfacepos"),
     cellfaces |-> IF h.tagged THEN Odd(I("cellfaces")) ELSE I("cellfaces"),
     tagged |-> h.tagged, tags |-> IF h.tagged THEN Even(I("cellfaces")) ELSE <<>>,
     mapped |-> h.mapped, map |-> I("map"), volumes |-> B("volumes"), cellcentroids |-> B("cellcentroids")]
=============================================================================
