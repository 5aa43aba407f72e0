---------------------------- MODULE MCPartition ----------------------------
EXTENDS Partition, TLC
CONSTANTS NC, MaxB, DimMax, NE
VARIABLES last
vars == <<p, last>>
Cells == 0..(NC - 1)
Edges == {<<a, b>> \in (Cells \X Cells) : a < b} \cup {<<-1, 0>>}
MInit == p \in [1..NC -> 0..MaxB] /\ last = "init"
DoCompress == last = "init" /\ Compress(Cardinality(Range(p)) - 1) /\ last' = "compress"
DoSplit == last = "init" /\ \E neigh \in [1..NE -> Edges] : \E q \in [1..NC -> 0..(MaxB + NC)] : \E r \in 0..NC :
             SplitOK(neigh, r, q) /\ p' = q /\ last' = "split"
MNext == DoCompress \/ DoSplit
MSpec == MInit /\ [][MNext]_vars
\* renumbering leaves no gap and keeps the order of blocks and the blocks themselves
CompressOK == last' = "compress" =>
    /\ Range(p') = 0..(Cardinality(Range(p)) - 1)
    /\ \A i, j \in DOMAIN p : (p[i] < p[j]) <=> (p'[i] < p'[j])
SplitRefines == last' = "split" => \A i, j \in DOMAIN p : p'[i] = p'[j] => p[i] = p[j]
PCompress == [][CompressOK]_vars
PSplit == [][SplitRefines]_vars
\* splitting is always possible and unique up to the names of the parts
ASSUME \A n \in 1..DimMax : \A m \in 1..n :
    LET cnt(b) == Cardinality({i \in 0..(n - 1) : Bin(i, n, m) = b}) IN
    /\ {Bin(i, n, m) : i \in 0..(n - 1)} = 0..(m - 1)
    /\ \A i \in 1..(n - 1) : Bin(i, n, m) \in {Bin(i - 1, n, m), Bin(i - 1, n, m) + 1}
    /\ \A b \in 0..(m - 1) : cnt(b) \in {n \div m, (n \div m) + (IF n % m = 0 THEN 0 ELSE 1)}
ASSUME \A c \in 1..3, d \in 1..3 : {UnifBlock(i, <<3, 3>>, <<c, d>>) : i \in 0..8} = 0..(c * d - 1)
=============================================================================
