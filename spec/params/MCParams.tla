------------------------------ MODULE MCParams ------------------------------
EXTENDS Params
CONSTANTS Names, Vals, MaxOps, GenDepth
VARIABLES n, hist
vars == <<pvars, n, hist>>
Paths == UNION {[1..i -> Names] : i \in 1..3}
PS(p) == IF Len(p) = 1 THEN p[1] ELSE IF Len(p) = 2 THEN p[1] \o "/" \o p[2] ELSE p[1] \o "/" \o p[2] \o "/" \o p[3]
Bump(s) == n' = n + 1 /\ hist' = IF GenDepth = 0 THEN "" ELSE hist \o s \o ";"
MInit == t = Empty /\ hs = <<<<>>>> /\ n = 0 /\ hist = ""
DoPut  == \E p \in Paths, v \in Vals : Insert(p, v, Blocked(t, p)) /\ Bump("I " \o PS(p) \o " " \o v)
DoJoin == \E a \in Names, p \in {x \in Paths : Len(x) < 3}, v \in Vals : Join(a, <<[p |-> p, v |-> v]>>) /\ Bump("J " \o a \o " " \o PS(p) \o " " \o v)
DoXml  == \E a \in Names, b \in Names, v \in Vals, grp \in BOOLEAN :
             LET inner == <<[k |-> "p", n |-> b, v |-> v, ty |-> "string", c |-> <<>>]>>
             IN  Read([k |-> "xml", c |-> IF grp THEN <<[k |-> "g", n |-> a, v |-> "", ty |-> "", c |-> inner]>> ELSE inner])
                 /\ Bump("X " \o a \o " " \o b \o " " \o v \o " " \o (IF grp THEN "1" ELSE "0"))
DoGet  == \E h \in 1..Len(hs), p \in Paths : LET r == Result(t, hs[h], p, "string", "", FALSE, "") IN
             Get(h, p, "string", "", FALSE, "", IF r.st = "fails" THEN "other" ELSE r.st, r.v) /\ Bump("G " \o ToString(h) \o " " \o PS(p))
DoOpen == \E h \in 1..Len(hs), p \in Paths : Len(hs) < 3 /\ (LET f == Find(t, hs[h], p) IN
             Open(h, p, IF f.st = "none" THEN "notfound" ELSE IF f.st = "through" THEN "other" ELSE IF t[f.at].k = "p" THEN "wrong" ELSE "ok"))
             /\ Bump("O " \o ToString(h) \o " " \o PS(p))
MNext == DoPut \/ DoJoin \/ DoXml \/ DoGet \/ DoOpen
Bound == n < MaxOps
MSpec == MInit /\ [][MNext]_vars
\* a parameter is found under its own path, and shadows those of the groups around it
FoundAtOwnPath == \A p \in Parameters(t) : Find(t, <<>>, p) = [st |-> "ok", at |-> p]
Nearest == \A g \in {q \in DOMAIN t : IsG(t, q)}, a \in Names :
              LET f == Find(t, g, <<a>>)
                  C == {i \in 0..Len(g) : Append(SubSeq(g, 1, i), a) \in DOMAIN t}
              IN  IF C = {} THEN f = None ELSE f.at = Append(SubSeq(g, 1, CHOOSE i \in C : \A j \in C : j <= i), a)
HandlesOK == \A h \in 1..Len(hs) : IsG(t, hs[h])
\* reading back what is written gives the same parameters
RoundTrip == LET L == Lines(t)
                 RECURSIVE S(_)
                 S(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o S(X \ {x})
             IN  Lines(PutAll(Empty, S(L))) = L
\* an insertion is what the next lookup of that path gives, and disturbs no other parameter that is not replaced
PutWins == [][\A p \in DOMAIN t' : (n' = n + 1 /\ p \in Parameters(t') /\ p \in Parameters(t) /\ t'[p].v # t[p].v) => ~t'[p].used]_vars
Emit == n # GenDepth \/ PrintT("@@" \o hist)
=============================================================================
