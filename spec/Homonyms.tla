------------------------------- MODULE Homonyms -------------------------------
(* Dictionaries: every order of adding words that share their texts.        *)
EXTENDS Explore, IOUtils

Z == INSTANCE Abstract

A == 1072   B == 1073
Noun(i, p) == [op |-> "word", t |-> NOUN, p |-> p,
               f |-> [s \in 1..18 |-> IF s % 3 = i THEN <<A>> ELSE IF s < 6 THEN <<B>> ELSE <<A, B>>]]
Prep(f, p) == [op |-> "word", t |-> PREPOSITION, f |-> f, p |-> p]
Single(t, x) == [op |-> "word", t |-> t, f |-> <<x>>, p |-> <<>>]

Pool == <<
  Single(TEXT, <<A>>),                                        \* 1
  Single(INTEGER, <<A>>),                                     \* 2: smaller part of speech
  Prep(<<<<A>>, <<B>>, <<A>>>>, <<>>),                        \* 3
  Prep(<<<<A>>, <<B>>, <<B>>>>, <<>>),                        \* 4: later in the order of forms
  Prep(<<<<A>>, <<B>>, <<A>>>>, Props({<<ANIMALITY, 2>>})),   \* 5: more properties than 3
  Noun(1, <<>>),                                              \* 6
  Noun(1, Props({<<NUMBER, PLURAL>>})),                       \* 7: shows its plural everywhere
  Prep(<<<<A>>, <<>>, <<A, B>>>>, Props({<<WORD_CASE, UPPER>>})), \* 8: capital and empty texts
  Noun(2, Props({<<GENDER, 3>>})),                            \* 9
  Single(TEXT, <<A>>),                                        \* 10: equal to 1
  Prep(<<<<A - 32>>, <<B>>, <<A>>>>, <<>>),                   \* 11: a capital letter comes before 3
  Prep(<<<<A, 9>>, <<A>>, <<A, B>>>>, <<>>) >>                \* 12: a longer text comes after its beginning

HomPrelude == Pool \o << [op |-> "dict", ws |-> <<>>], [op |-> "dict", ws |-> <<3>>] >>
Long == "UTG_LONG" \in DOMAIN IOEnv /\ IOEnv.UTG_LONG = "1"
HomDepth == IF Long THEN 4 ELSE 3
HomMenu(s) == {[op |-> "add", d |-> 1, w |-> i] : i \in 1..Len(Pool)}
Probes == << <<A>>, <<B>>, <<A, B>>, <<A - 32>>, <<A - 32, B>>, <<>>, <<B, B>>, <<A, 9>> >>
HomWatch(s, ev) == << [op |-> "probe", d |-> 1, xs |-> Probes], [op |-> "getwords", d |-> 1],
                      [op |-> "probe", d |-> 2, xs |-> Probes],
                      [op |-> "get", d |-> 1, x |-> <<A, B>>, keep |-> FALSE] >>

(* What the dictionary must hold, said without any order of adding.         *)
Added == {hist[i].e.w : i \in 1..Len(hist)}
TextsOf(h) == LET a == AllForms(sys.words[h]) IN {a[i].x : i \in 1..Len(a)}
Offered == TLCEval([h \in Added |-> Offers(sys.words, h)])
Content == sys.dicts[1]
HomTheorems ==
  LET off == Offered IN
  /\ DOMAIN Content = UNION {TextsOf(h) : h \in Added}
  /\ \A x \in DOMAIN Content :
       /\ Content[x].w \in Added
       /\ Shown(sys.words[Content[x].w], Content[x].p) = x
       /\ \A h \in Added : x \in DOMAIN off[h] => ~Beats(sys.words, off[h][x], Content[x])
  (* the laws proved in Proofs.tla are about this choice *)
  /\ \A x \in DOMAIN Content :
       LET es == {off[h][x] : h \in {g \in Added : x \in DOMAIN off[g]}}
           rank == TLCEval([e \in es |-> Cardinality({f \in es : Beats(sys.words, f, e)})])
       IN \A a, b \in es : /\ Beats(sys.words, b, a) = (rank[b] < rank[a])
                            /\ Z!Kept(a, b, rank) = (IF Beats(sys.words, b, a) THEN b ELSE a)
  /\ sys.dicts[2] = Register(sys.words, EmptyDict, 3)
  (* adding at once, and adding again, give the same *)
  /\ RegisterAll(sys.words, EmptyDict, [i \in 1..Len(hist) |-> hist[i].e.w]) = Content
  /\ \A h \in Added : DOMAIN Register(sys.words, Content, h) = DOMAIN Content
(* Except for ties, the opposite order gives the same. *)
Reversed == RegisterAll(sys.words, EmptyDict, [i \in 1..Len(hist) |-> hist[Len(hist) + 1 - i].e.w])
OrderTheorem ==
  \A x \in DOMAIN Content :
     LET r == Reversed[x] IN r = Content[x] \/ ~(Beats(sys.words, r, Content[x]) \/ Beats(sys.words, Content[x], r))
(* A text once known stays known. *)
Monotone == [][DOMAIN sys.dicts[1] \subseteq DOMAIN sys'.dicts[1]]_<<sys, hist>>
=============================================================================
