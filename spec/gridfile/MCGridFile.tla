----------------------------- MODULE MCGridFile -----------------------------
(* A reader that takes the numbers one by one into arrays allocated from the   *)
(* header, from a file that may have been cut off or damaged.                  *)
EXTENDS GridFile, TLC
CONSTANTS Emitting
VARIABLES file, made, pos, got, mode
vars == <<file, made, pos, got, mode>>
Headers == {[dims |-> d, nc |-> c, nf |-> f, nn |-> n, nfn |-> x, ncf |-> y, tagged |-> t, mapped |-> m] :
              d \in 1..2, c \in 0..1, f \in 0..1, n \in {0, 2}, x \in 0..1, y \in 0..1, t \in BOOLEAN, m \in BOOLEAN}
Flag(b) == IF b THEN 8 ELSE 0
HeadTokens(h) == <<8 * h.dims, 8 * h.nc, 8 * h.nf, 8 * h.nn, 8 * h.nfn, 8 * h.ncf, Flag(h.tagged), Flag(h.mapped)>>
RECURSIVE Fill(_, _)
\* block k with numbers that tell where they stand
Numbers(h, k) == LET b == Layout(h)[k] IN [i \in 1..b[2] |->
      IF b[1] = "facenodepos" THEN (IF i = h.nf + 1 THEN 8 * h.nfn ELSE 0)
      ELSE IF b[1] = "cellfacepos" THEN (IF i = h.nc + 1 THEN 8 * h.ncf ELSE 0)
      ELSE IF b[3] THEN 8 * (10 * k + i) ELSE 80 * k + i]
Fill(h, k) == IF k > Len(Layout(h)) THEN <<>> ELSE Numbers(h, k) \o Fill(h, k + 1)
Init == file = <<>> /\ made = <<>> /\ pos = 0 /\ got = <<>> /\ mode = "new"
Make == mode = "new" /\ (\E h \in Headers : (h.nf = 0 => h.nfn = 0) /\ (h.nc = 0 => h.ncf = 0) /\ made' = HeadTokens(h) \o Fill(h, 1)) /\ file' = made' /\ mode' = "file" /\ UNCHANGED <<pos, got>>
CutOff == mode = "file" /\ file = made /\ (\E n \in 0..(Len(file) - 1) : file' = SubSeq(file, 1, n)) /\ UNCHANGED <<made, pos, got, mode>>
Spoil == mode = "file" /\ file = made /\ (\E i \in DOMAIN file : \E v \in {Word, file[i] + 8} : (i <= HeaderLen => (v = Word \/ i \in 5..6)) /\ file' = [file EXCEPT ![i] = v]) /\ UNCHANGED <<made, pos, got, mode>>
Extra == mode = "file" /\ file = made /\ file' = Append(file, 8) /\ UNCHANGED <<made, pos, got, mode>>
Script == ToString([file |-> file])
Open == mode = "file" /\ mode' = "reading" /\ UNCHANGED <<file, made, pos, got>> /\ (Emitting => PrintT("@@" \o Script))
\* the block that number p of the file belongs to
BlockOf(h, p) == CHOOSE k \in DOMAIN Layout(h) : Before(Layout(h), k) < p /\ p <= Before(Layout(h), k + 1)
Take == /\ mode = "reading"
        /\ IF pos < HeaderLen
           THEN IF pos < Len(file) /\ Whole(file[pos + 1]) THEN pos' = pos + 1 /\ got' = Append(got, file[pos + 1]) /\ mode' = mode
                ELSE mode' = "failed" /\ UNCHANGED <<pos, got>>
           ELSE LET h == HeaderAt(got) IN
                IF pos = Total(h) THEN mode' = "read" /\ UNCHANGED <<pos, got>>
                ELSE IF pos >= Len(file) \/ file[pos + 1] = Word THEN mode' = "failed" /\ UNCHANGED <<pos, got>>
                ELSE LET k == BlockOf(h, pos + 1) b == Layout(h)[k] last == pos + 1 = Before(Layout(h), k + 1) x == file[pos + 1] IN
                     IF last /\ ((b[1] = "facenodepos" /\ x # 8 * h.nfn) \/ (b[1] = "cellfacepos" /\ x # 8 * h.ncf))
                     THEN mode' = "failed" /\ UNCHANGED <<pos, got>>
                     ELSE pos' = pos + 1 /\ got' = Append(got, x) /\ mode' = mode
        /\ UNCHANGED <<file, made>>
Next == Make \/ CutOff \/ Spoil \/ Extra \/ Open \/ Take
Spec == Init /\ [][Next]_vars
Right == /\ mode = "read" => Readable(file) /\ GridOf(got) = GridOf(file)
         /\ mode = "failed" => ~Readable(file)
\* a whole file gives back the grid that was written, a cut file none
Faithful == mode = "read" /\ file = made => GridOf(file) = GridOf(made)
NoHalves == mode \in {"read", "failed"} /\ Len(file) < Len(made) => mode = "failed"
Sized == mode = "read" => LET g == GridOf(got) IN
   /\ Len(g.nodes) = g.dims * g.nn /\ Len(g.facenodes) = g.facenodepos[g.nf + 1] /\ Len(g.cellfaces) = g.cellfacepos[g.nc + 1]
   /\ (g.tagged => Len(g.tags) = Len(g.cellfaces)) /\ (g.mapped => Len(g.map) = g.nc) /\ Len(g.cartdims) = 3
   /\ Len(g.facecells) = 2 * g.nf /\ Len(g.volumes) = g.nc /\ Len(g.cellcentroids) = g.dims * g.nc
=============================================================================
