-------------------------------- MODULE Twins --------------------------------
(* Equality: objects that differ in as little as possible, compared with    *)
(* each other before and after any of their derived values were read.       *)
EXTENDS Explore, IOUtils

Long == "UTG_LONG" \in DOMAIN IOEnv /\ IOEnv.UTG_LONG = "1"
A == 1072   B == 1073
W1(t, f, p) == [op |-> "word", t |-> t, f |-> f, p |-> p]
F1(w, p, fp) == [op |-> "wf", w |-> w, p |-> p, fp |-> fp]
T1(x, e) == [op |-> "tpl", x |-> x, exts |-> e]
TwPrelude == <<
  W1(PREPOSITION, <<<<A>>, <<B>>, <<A>>>>, <<>>),                       \* 1
  W1(PREPOSITION, <<<<A>>, <<B>>, <<A>>>>, NoProps),                    \* 2 = 1
  W1(PREPOSITION, <<<<A>>, <<A>>, <<B>>>>, <<>>),                       \* 3: the same forms elsewhere
  W1(PREPOSITION, <<<<A>>, <<B>>, <<A>>>>, Props({<<NUMBER, 1>>})),     \* 4: a default written out
  W1(PREPOSITION, <<<<A>>, <<B>>, <<>>>>, <<>>),                        \* 5: one form empty
  W1(TEXT, <<<<A>>>>, <<>>),                                            \* 6
  W1(INTEGER, <<<<A>>>>, <<>>),                                         \* 7: another part of speech
  W1(TEXT, <<<<A - 32>>>>, <<>>),                                       \* 8: another letter case
  F1(1, <<>>, <<>>), F1(2, <<>>, <<>>), F1(2, NoProps, Props({<<PREPOSITION_FORM, 2>>})),
  F1(1, Props({<<PREPOSITION_FORM, 1>>}), <<>>), F1(1, Props({<<PREPOSITION_FORM, 3>>}), <<>>),
  F1(4, Props({<<NUMBER, 2>>}), <<>>), F1(4, <<>>, <<>>), F1(6, <<>>, <<>>), F1(7, <<>>, <<>>),
  T1(<<Open, A, Close>>, <<>>), T1(<<Open, 32, A, Close>>, <<>>), T1(<<Open, A - 32, Close>>, <<>>),
  T1(<<Open, A, Bar, B, Close>>, <<<<B>>>>), T1(<<Open, A, Bar, Close>>, <<>>),
  T1(<<Open, A, Bar, 1084, 1085, Comma, 1088, 1076, Close>>, <<>>),
  T1(<<Open, A, Bar, 1088, 1076, Comma, 1084, 1085, Close>>, <<>>),
  T1(<<Open, A, Bar, 1088, 1076, Bar, 1084, 1085, Close>>, <<>>),
  T1(<<Open, A, Bar, 1084, 1085, Bar, 1088, 1076, Close>>, <<>>),
  T1(<<Open, A, Bar, B, Bar, B, Close>>, <<<<B>>>>) >>
NWords == 8   NForms == 9   NTpls == 10

TwDepth == IF Long THEN 2 ELSE 1
TwMenu(s) ==
  UNION { {[op |-> o, w |-> i] : o \in {"syllables", "fluent", "normal", "allforms", "autofill"}} : i \in 1..NWords }
  \cup { [op |-> "peekwf", i |-> i, first |-> b] : i \in 1..NForms, b \in BOOLEAN }
  \cup { [op |-> "rtt", i |-> i] : i \in 1..NTpls } \cup { [op |-> "rtw", w |-> i] : i \in 1..NWords }

Pairs(n) == TLCEval([k \in 1..(n * n) |-> <<1 + ((k - 1) \div n), 1 + ((k - 1) % n)>>])
Compare(o, n) == LET ps == Pairs(n) IN TLCEval([k \in 1..Len(ps) |-> [op |-> o, a |-> ps[k][1], b |-> ps[k][2]]])
TwWatch(s, ev) ==
  Compare("weq", Len(s.words)) \o Compare("wfeq", NForms) \o Compare("teq", Len(s.tpls))

Holds(o, a, b) == Do(sys, [op |-> o, a |-> a, b |-> b]).r.v.eq
Equivalence(o, n) ==
  LET e == TLCEval([a \in 1..n |-> TLCEval([b \in 1..n |-> Holds(o, a, b)])])
  IN \A a \in 1..n : /\ e[a][a]
                     /\ \A b \in 1..n : /\ e[a][b] = e[b][a]
                                        /\ \A c \in 1..n : e[a][b] /\ e[b][c] => e[a][c]
(* Equal words answer every request alike; equal templates render alike.    *)
Requests == {NoProps} \cup {Props({<<PREPOSITION_FORM, v>>}) : v \in 1..3}
Congruence ==
  /\ \A a, b \in 1..Len(sys.words) : Holds("weq", a, b) =>
       /\ \A p \in Requests : Inflect(sys.words[a], p) = Inflect(sys.words[b], p)
       /\ WordDoc(sys.words[a]) = WordDoc(sys.words[b])
  /\ \A a, b \in 1..NForms : Holds("wfeq", a, b) => Holds("weq", sys.wfs[a].w, sys.wfs[b].w)
  /\ \A a, b \in 1..Len(sys.tpls) : Holds("teq", a, b) => sys.tpls[a] = sys.tpls[b]
TwTheorems ==
  /\ Equivalence("weq", Len(sys.words)) /\ Equivalence("wfeq", NForms) /\ Equivalence("teq", Len(sys.tpls))
  /\ Congruence
=============================================================================
