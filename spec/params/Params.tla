------------------------------- MODULE Params -------------------------------
(* Run-time parameters: a tree of groups with parameters as leaves.  A path  *)
(* is a sequence of names, the root group is <<>>.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES t,    \* path -> [k |-> "g"] or [k |-> "p", v, ty, used]
          hs    \* group handles: sequence of paths
pvars == <<t, hs>>
G == [k |-> "g"]
P(v, ty) == [k |-> "p", v |-> v, ty |-> ty, used |-> FALSE]
Empty == <<>> :> G
IsG(T, p) == p \in DOMAIN T /\ T[p].k = "g"
IsP(T, p) == p \in DOMAIN T /\ T[p].k = "p"
Under(q, p) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
Prefixes(p) == {SubSeq(p, 1, i) : i \in 0..(Len(p) - 1)}
Without(T, p) == [q \in {x \in DOMAIN T : ~Under(x, p)} |-> T[q]]
At(base, T) == [q \in {base \o x : x \in DOMAIN T} |-> T[SubSeq(q, Len(base) + 1, Len(q))]]
Parameters(T) == {p \in DOMAIN T : T[p].k = "p"}
EmptyGroups(T) == {p \in DOMAIN T : T[p].k = "g" /\ ~\E q \in DOMAIN T : q # p /\ Under(q, p)}
\* ------------------------------------------------------------ insertion by path
Blocked(T, p) == \E q \in Prefixes(p) : IsP(T, q)
Put(T, p, v) == IF Blocked(T, p) THEN T
                ELSE (p :> P(v, "cmdline")) @@ Without(T, p) @@ [q \in Prefixes(p) |-> G]
RECURSIVE PutAll(_, _)
PutAll(T, as) == IF as = <<>> THEN T ELSE PutAll(Put(T, Head(as).p, Head(as).v), Tail(as))
\* ------------------------------------------------------------ merging: the new items win, groups are joined
RECURSIVE Merge(_, _, _)
Children(T, p) == {q \in DOMAIN T : Len(q) = Len(p) + 1 /\ Under(q, p)}
Below(T, p) == [x \in {SubSeq(q, Len(p) + 1, Len(q)) : q \in {y \in DOMAIN T : Under(y, p)}} |-> T[p \o x]]
Place(T, p, sub) == IF sub[<<>>].k = "g" /\ IsG(T, p) THEN Merge(T, p, sub) ELSE At(p, sub) @@ Without(T, p)
RECURSIVE Fold(_, _, _, _)
Fold(T, p, sub, ch) == IF ch = {} THEN T ELSE LET c == CHOOSE x \in ch : TRUE IN Fold(Place(T, p \o c, Below(sub, c)), p, sub, ch \ {c})
Merge(T, p, sub) == Fold(T, p, sub, Children(sub, <<>>))
\* ------------------------------------------------------------ files: sequences of items [k, n, v, ty, c]
RECURSIVE Build(_, _)
Build(T, items) == IF items = <<>> THEN T ELSE LET i == Head(items) IN
    Build(CASE i.k = "p" -> Place(T, <<i.n>>, <<>> :> P(i.v, IF i.ty = "file" THEN "string" ELSE i.ty))
            [] i.k = "g" -> Place(T, <<i.n>>, Build(Empty, i.c))
            [] i.k = "m" -> Build(T, i.c), Tail(items))
ReadFile(T, f) == CASE f.k = "param" -> PutAll(T, f.c) [] f.k = "xml" -> Build(T, f.c) [] OTHER -> T
RECURSIVE ReadFiles(_, _)
ReadFiles(T, fs) == IF fs = <<>> THEN T ELSE ReadFiles(ReadFile(T, Head(fs)), Tail(fs))
\* ------------------------------------------------------------ lookup
None == [st |-> "none", at |-> <<>>]
RECURSIVE Find(_, _, _)
Find(T, g, p) == LET h == Append(g, Head(p)) IN
    IF h \notin DOMAIN T THEN (IF g = <<>> THEN None ELSE Find(T, SubSeq(g, 1, Len(g) - 1), p))
    ELSE IF Len(p) = 1 THEN [st |-> "ok", at |-> h]
    ELSE IF T[h].k = "p" THEN [st |-> "through", at |-> h]
    ELSE Find(T, h, Tail(p))
\* the value of a parameter's text as a given type
Ints == {"17", "-3", "0", "17 "}
Doubles == {"2.5", "-0.125", "1e3"}
Bools == {"true", "false"}
Canon(s) == CASE s = "17 " -> "17" [] s = "1e3" -> "1000" [] OTHER -> s
Conv(s, ty) == CASE ty = "string" -> [st |-> "ok", v |-> s]
                 [] ty = "int" -> IF s \in Ints THEN [st |-> "ok", v |-> Canon(s)] ELSE IF s \in Doubles THEN [st |-> "any", v |-> ""] ELSE [st |-> "wrong", v |-> ""]
                 [] ty = "double" -> IF s \in Ints \cup Doubles THEN [st |-> "ok", v |-> Canon(s)] ELSE [st |-> "wrong", v |-> ""]
                 [] ty = "bool" -> IF s \in Bools THEN [st |-> "ok", v |-> s] ELSE [st |-> "wrong", v |-> ""]
Meets(v, req) == CASE req = "" -> TRUE
                   [] req = "positive" -> v \in {"17", "2.5", "1000"}
                   [] req = "negative" -> v \in {"-3", "-0.125"}
                   [] req = "nonpositive" -> v \in {"-3", "-0.125", "0"}
                   [] req = "nonnegative" -> v \in {"17", "2.5", "1000", "0"}
                   [] req = "nonzero" -> v # "0"
                   [] req = "probability" -> v = "0"
                   [] req = "nonempty" -> v # ""
                   [] req = "member" -> v \in {"text", "x_y"}
                   [] req = "member1" -> v = "text"
                   [] req = "and" -> v \in {"17", "2.5", "1000"}
Verdict(v, req) == IF Meets(v, req) THEN [st |-> "ok", v |-> v] ELSE [st |-> "req", v |-> ""]
\* what looking up path p as type ty from group g gives; hasDef: a default d is offered
Result(T, g, p, ty, req, hasDef, d) == LET f == Find(T, g, p) IN
    CASE f.st = "none" -> IF hasDef THEN Verdict(d, req) ELSE [st |-> "notfound", v |-> ""]
      [] f.st = "through" -> [st |-> "fails", v |-> ""]
      [] T[f.at].k = "g" -> [st |-> "wrong", v |-> ""]
      [] T[f.at].ty \notin {ty, "cmdline"} -> [st |-> "wrong", v |-> ""]
      [] OTHER -> LET c == Conv(T[f.at].v, ty) IN IF c.st = "ok" THEN Verdict(c.v, req) ELSE c
Answers(w, st, v) == CASE w.st = "ok" -> st = "ok" /\ v = w.v
                       [] w.st = "any" -> TRUE
                       [] w.st = "fails" -> st # "ok"
                       [] OTHER -> st = w.st
Mark(T, g, p, st) == LET f == Find(T, g, p) IN IF st = "ok" /\ f.st = "ok" /\ T[f.at].k = "p" THEN [T EXCEPT ![f.at].used = TRUE] ELSE T
Lines(T) == {[p |-> q, v |-> T[q].v] : q \in Parameters(T)} \cup {[p |-> Append(q, "dummy"), v |-> "0"] : q \in EmptyGroups(T)}
\* ------------------------------------------------------------ transitions
Begin(fs, as) == t' = PutAll(ReadFiles(Empty, fs), as) /\ hs' = <<<<>>>>
Insert(p, v, threw) == (threw <=> Blocked(t, p)) /\ t' = Put(t, p, v) /\ hs' = <<<<>>>>
Read(f) == t' = ReadFile(t, f) /\ hs' = <<<<>>>>
Join(n, as) == t' = Place(t, <<n>>, PutAll(Empty, as)) /\ hs' = <<<<>>>>
Get(h, p, ty, req, hasDef, d, st, v) == /\ Answers(Result(t, hs[h], p, ty, req, hasDef, d), st, v)
                                        /\ t' = Mark(t, hs[h], p, st) /\ UNCHANGED hs
Open(h, p, st) == LET f == Find(t, hs[h], p) IN
    /\ st = (IF f.st = "none" THEN "notfound" ELSE IF f.st = "through" THEN st ELSE IF t[f.at].k = "p" THEN "wrong" ELSE "ok")
    /\ (f.st = "through" => st # "ok")
    /\ hs' = IF st = "ok" THEN Append(hs, f.at) ELSE hs
    /\ UNCHANGED t
\* ------------------------------------------------------------ what is observed
HasIt(h, p) == (hs[h] \o p) \in DOMAIN t
Used == {p \in Parameters(t) : t[p].used}
AnyUnused(r) == /\ (Parameters(t) # Used => r)
                /\ (Parameters(t) # {} /\ Parameters(t) = Used /\ EmptyGroups(t) = {} => ~r)
TreeOK == IsG(t, <<>>) /\ \A p \in DOMAIN t : \A q \in Prefixes(p) : IsG(t, q)
=============================================================================
