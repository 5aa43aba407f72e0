---------------------------- MODULE MCWellsDeck ----------------------------
(* Decks built up record by record over a small grid with two missing cells, *)
(* then handed over: the order of first names, the last records, and later  *)
(* flags decide, and nothing else.                                          *)
EXTENDS WellsDeck, TLC
CONSTANTS MaxRec, Ws, Gs, Gen
VARIABLES built, hist
mv == <<cfg, cur, closed, gctl, pact, iact, deck, built, hist>>
Empty == [np |-> 2, pos |-> <<1, 2, 0>>, dims |-> <<2, 1, 3>>, act |-> <<0, 1, 2, -1, 3, -1>>, cz |-> <<100, 101, 110, 111>>,
          specs |-> <<>>, comp |-> <<>>, inje |-> <<>>, prod |-> <<>>, flags |-> <<>>, tree |-> <<>>, gprod |-> <<>>, ginj |-> <<>>, guide |-> <<>>]
No5 == <<-1, -1, -1, -1, -1>>
RECURSIVE Str(_)
Str(q) == IF q = <<>> THEN "" ELSE ToString(Head(q)) \o " " \o Str(Tail(q))
H(x) == hist' = IF Gen THEN hist \o x ELSE hist
Add(field, r) == deck' = [deck EXCEPT ![field] = Append(@, r)] /\ built' = FALSE /\ UNCHANGED gvars
Size == Len(deck.specs) + Len(deck.comp) + Len(deck.inje) + Len(deck.prod) + Len(deck.flags) + Len(deck.tree) + Len(deck.gprod)
NCon == Len(deck.inje) + Len(deck.prod)
More == ~built /\ Size < MaxRec
MInit == /\ cfg = [np |-> 2, pos |-> <<1, 2, 0>>, groups |-> <<>>, wells |-> <<>>] /\ cur = <<>> /\ closed = <<>> /\ gctl = <<>> /\ pact = <<>> /\ iact = <<>>
         /\ deck = Empty /\ built = FALSE /\ hist = ""
DoSpec == More /\ deck.comp = <<>> /\ \E w \in Ws, g \in Gs, i \in 1..2, dep \in {-1, 50} : (i = 1 \/ dep = 50) /\
            Add("specs", [w |-> w, g |-> g, i |-> i, j |-> 1, dep |-> dep]) /\ H("spec " \o w \o " " \o g \o " " \o Str(<<i, 1, dep>>) \o "; ")
DoComp == More /\ Len(deck.specs) > 0 /\ NCon = 0 /\ \E w \in Ws, c \in {<<1, 0, 0, 0>>, <<0, 1, 2, 3>>, <<3, 1, 1, 1>>} :
            Add("comp", [ws |-> {w}, i |-> c[1], j |-> c[2], k1 |-> c[3], k2 |-> c[4], wi |-> 5 + Len(deck.comp)])
            /\ H("comp " \o w \o " " \o Str(c) \o Str(<<5 + Len(deck.comp)>>) \o "; ")
B(x) == IF x THEN "1 " ELSE "0 "
DoCon == More /\ Len(deck.comp) > 0 /\ deck.flags = <<>> /\ \E w \in Ws, sh \in BOOLEAN :
            \/ \E m \in {"ORAT", "BHP", "GRUP"}, b \in {0, 11} :
                 /\ Add("prod", [w |-> w, shut |-> sh, mode |-> m, v |-> <<20, -1, -1, 60, -1>>, bhp |-> b, thp |-> 0])
                 /\ H("prod " \o w \o " " \o B(sh) \o m \o " 20 -1 -1 60 -1 " \o Str(<<b>>) \o "; ")
            \/ \E m \in {"RATE", "GRUP"}, t \in {1, 3} :
                 /\ Add("inje", [w |-> w, t |-> t, shut |-> sh, mode |-> m, v |-> <<100, -1>>, bhp |-> 31, thp |-> 0])
                 /\ H("inje " \o w \o " " \o Str(<<t>>) \o B(sh) \o m \o " 100 -1 31 ; ")
DoFlag == More /\ Len(deck.prod) + Len(deck.inje) > 0 /\ \E w \in Ws, sh \in BOOLEAN : Add("flags", [w |-> w, shut |-> sh]) /\ H("flag " \o w \o " " \o B(sh) \o "; ")
DoTree == More /\ deck.tree = <<>> /\ deck.specs = <<>> /\ \E g, h \in Gs : g # h /\ Add("tree", [c |-> g, p |-> h]) /\ H("tree " \o g \o " " \o h \o "; ")
\* Records of one keyword follow each other; a target only where a well asks for one
DoTarget == More /\ deck.gprod = <<>> /\ deck.flags = <<>> /\ Len(deck.prod) > 0 /\ \E g \in Gs :
            Add("gprod", [g |-> g, mode |-> "ORAT", v |-> <<60, -1, -1, -1, -1>>, proc |-> "RATE"]) /\ H("gprod " \o g \o " ORAT 60 -1 -1 -1 -1 RATE ; ")
Ready == /\ Len(deck.specs) > 0 /\ \A w \in NameSet(deck) : (Named(deck.inje, w) \/ Named(deck.prod, w)) /\ \E k \in DOMAIN deck.comp : w \in deck.comp[k].ws
Asked == \A k \in DOMAIN deck.gprod : \E w \in NameSet(deck) :
            /\ ~IsInj(deck, w) /\ Record(deck, w).mode = "GRUP"
            /\ deck.gprod[k].g \in {WellGroup(deck, w), ParentName(deck, WellGroup(deck, w))}
DoBuild == ~built /\ Ready /\ Asked /\ built' = TRUE /\ UNCHANGED deck /\ H("build ;")
           /\ IF Refused(deck) THEN UNCHANGED gvars ELSE Start(Setup(deck))
MNext == DoSpec \/ DoComp \/ DoCon \/ DoFlag \/ DoTree \/ DoTarget \/ DoBuild
MSpec == MInit /\ [][MNext]_mv
Emit == ~built \/ PrintT("@@" \o hist)
\* ---- the deck decides, nothing else does
Fine == built /\ ~Refused(deck)
OnePerName == Fine => LET ns == Names(deck) IN Cardinality(Range(ns)) = Len(ns) /\ Range(ns) = NameSet(deck) /\ Len(cfg.wells) = Len(ns)
EveryPerforationIsACell == Fine => \A w \in NameSet(deck) : LET p == Perforations(deck, w) IN p # <<>> /\ \A n \in DOMAIN p : p[n].c \in 0..3
Depths == Fine => \A w \in NameSet(deck) : Depth(deck, w) \in {50, 100, 101, 110, 111}
ControlsMatch == Fine => \A k \in DOMAIN cfg.wells : LET w == cfg.wells[k] IN
    /\ (~w.grup => w.cur \in DOMAIN w.ctrls)
    /\ \A i \in DOMAIN w.ctrls : (w.kind = "P" /\ w.ctrls[i].t # "BHP") => w.ctrls[i].v <= 0
OneTree == Fine => \A g \in Groups : \A h \in Anc(g) : h \in Groups
\* a record that is overruled later does not matter
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
LaterRules == Fine => \A k \in DOMAIN deck.prod : (\E n \in DOMAIN deck.prod : n > k /\ deck.prod[n].w = deck.prod[k].w)
                 => Setup([deck EXCEPT !.prod = Drop(deck.prod, k)]) = cfg
\* flags only open and close
FlagsFlip == Fine => \A k \in DOMAIN deck.flags :
    LET c == Setup([deck EXCEPT !.flags = Drop(deck.flags, k)]) IN \A w \in Wells : [c.wells[w] EXCEPT !.closed = cfg.wells[w].closed] = cfg.wells[w]
=============================================================================
