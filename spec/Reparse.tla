------------------------------- MODULE Reparse -------------------------------
(* Templates: every history of successful and failing parses.               *)
EXTENDS Explore, IOUtils

(* "a" is known to the dictionary, "g" is an external. *)
A == 1072   G == 1075
RepPrelude == <<
  [op |-> "word", t |-> TEXT, f |-> <<<<A>>>>, p |-> <<>>],
  [op |-> "word", t |-> NOUN, f |-> [i \in 1..18 |-> <<G, 48 + (i % 10)>>], p |-> <<>>],
  [op |-> "dict", ws |-> <<1>>],
  [op |-> "wf", w |-> 2, p |-> <<>>, fp |-> <<>>],
  [op |-> "tpl", x |-> <<33>>, exts |-> <<>>],
  [op |-> "tpl", x |-> <<91, A, 93>>, exts |-> <<<<G>>>>] >>
Texts == <<
  <<>>,                                        \* no variable
  <<37, 91, A, 93>>,                           \* %[a]
  <<91, A, 93, 91, G, 124, A, 93>>,            \* [a][g|a]  fails unless "a" is an external
  <<91, G, 124, 1088, 1076, 93, 46>>,          \* [g|rd].
  <<91, G, 124, G, 93>>,                       \* [g|g]     fails unless "g" is an external
  <<91, A, 93, 91, 32, 93>>,                   \* [a][ ]    fails
  <<91, 1040, 93, 91, 1085, 93>> >>            \* [A][n]
ExtLists == << <<>>, <<<<G>>>> >>
Long == "UTG_LONG" \in DOMAIN IOEnv /\ IOEnv.UTG_LONG = "1"
RepDepth == IF Long THEN 3 ELSE 2
RepMenu(s) ==
  {[op |-> "parse", i |-> i, x |-> Texts[t], exts |-> ExtLists[e]] :
     i \in 1..2, t \in 1..Len(Texts), e \in 1..2}
  \cup {[op |-> "loadt", js |-> TRUE, doc |-> [lits |-> <<<<A>>, <<37>>>>,
          subs |-> <<[id |-> <<G>>, deps |-> <<[e |-> FALSE, n |-> <<>>, f |-> <<<<0, 1>>>>]>>]>>]]}
Passed == << [n |-> <<G>>, i |-> 1] >>
RepWatch(s, ev) ==
  Concat([i \in 1..Len(s.tpls) |->
    << [op |-> "sert", i |-> i],
       [op |-> "tryrender", i |-> i, d |-> 1, ext |-> Passed],
       [op |-> "undict", i |-> i, d |-> 1, ext |-> IF i = 1 THEN Passed ELSE <<>>] >>])
  \o << [op |-> "teq", a |-> 1, b |-> 2] >>

(* The template is what the last successful parse says; a failing one       *)
(* changes nothing.                                                         *)
LastOk(i) ==
  LET ps == {j \in 1..Len(hist) : hist[j].e.op = "parse" /\ hist[j].e.i = i
                                   /\ ParseTemplate(hist[j].e.x, ToSet(hist[j].e.exts)).k = "ok"}
  IN IF ps = {} THEN RepPrelude[4 + i] ELSE hist[Max(ps)].e
RepTheorems ==
  \A i \in 1..2 :
    LET e == LastOk(i)
        r == ParseTemplate(e.x, ToSet(e.exts)).v
    IN sys.tpls[i] = [ok |-> TRUE, lits |-> r.lits, subs |-> r.subs]
(* What is listed as missing is what rendering does not find. *)
MissingTheorem ==
  \A i \in 1..Len(sys.tpls) :
    LET ev == [op |-> "render", i |-> i, d |-> 1, ext |-> Passed]
        m == Do(sys, [ev EXCEPT !.op = "undict"]).r.v
        r == Do(sys, ev).r
    IN /\ (m = <<>>) => (r.k = "ok" \/ r.v # "NoWordsFoundError")
       /\ (m # <<>>) => (r.k = "err" /\ (r.v = "NoWordsFoundError" => r.a = m[1]))
=============================================================================
