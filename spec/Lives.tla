-------------------------------- MODULE Lives --------------------------------
(* Objects that come and go: every history of making single objects and     *)
(* letting go of all of them, the newest one being asked after each step.   *)
(* What an object answers depends on how it was made alone: not on those    *)
(* that were there before, nor on those that stood in its place.            *)
EXTENDS Explore, IOUtils

Long == "UTG_LONG" \in DOMAIN IOEnv /\ IOEnv.UTG_LONG = "1"
LifeNum(ds) == [neg |-> FALSE, d |-> ds]
LifeWord(t, f, p) == [op |-> "word", t |-> t, p |-> p, f |-> f]
LifeText(x) == [op |-> "loadt", js |-> TRUE, doc |-> [lits |-> <<x>>, subs |-> <<>>]]
LifeA == 1072   LifeO == 1086   LifeB == 1073
Gone == [op |-> "forget", but |-> <<"dicts">>]
LifePrelude == << [op |-> "dict", ws |-> <<>>] >>
LifeDepth == IF Long THEN 6 ELSE 5
Makings ==
  { LifeText(<<LifeA>>), LifeText(<<LifeB, LifeA>>),
    [op |-> "tpl", x |-> <<Open, LifeA, Close>>, exts |-> <<>>],
    LifeWord(TEXT, <<<<LifeB, LifeO>>>>, <<>>), LifeWord(TEXT, <<<<LifeB, LifeO, LifeO>>>>, <<>>),
    LifeWord(PREPOSITION, << <<LifeB, LifeO>>, <<LifeB, LifeA>>, <<>> >>, <<>>),
    [op |-> "int", n |-> LifeNum(<<2>>)], [op |-> "int", n |-> LifeNum(<<1, 0, 0, 2, 1>>)] }
(* One or two things are made, let go, others are made, and so on.           *)
Before(n) == Len(hist) >= n /\ hist[Len(hist) + 1 - n].e.op # "forget"
LifeMenu(s) == (IF Before(1) /\ Before(2) THEN {} ELSE Makings)
               \cup (IF Before(1) /\ Len(hist) < LifeDepth - 1 THEN {Gone} ELSE {})

Newest(s, ev) ==
  CASE ev.op \in {"loadt", "tpl"} ->
         LET i == Len(s.tpls)
         IN << [op |-> "tryrender", i |-> i, d |-> 1, ext |-> <<>>], [op |-> "sert", i |-> i], [op |-> "teq", a |-> i, b |-> i] >>
    [] ev.op = "word" ->
         LET w == Len(s.words)
         IN << [op |-> "attrs", w |-> w], [op |-> "normal", w |-> w],
               [op |-> "form", w |-> w, p |-> Props({<<PREPOSITION_FORM, 2>>})], [op |-> "weq", a |-> w, b |-> w] >>
    [] ev.op = "int" -> << [op |-> "peekwf", i |-> Len(s.wfs), first |-> TRUE], [op |-> "attrs", w |-> Len(s.words)] >>
    [] OTHER -> <<>>
LifeWatch(s, ev) == Newest(s, ev)

(* Locality.                                                                 *)
LifeTheorems ==
  \A i \in 1..Len(hist) :
    LET alone == After(NewSession, Prelude \o <<hist[i].e>>)
        there == Newest(alone, hist[i].e)
        here == hist[i].w
    IN \A j \in 1..Len(here) : Do(sys, here[j]).r = Do(alone, there[j]).r
=============================================================================
