------------------------------- MODULE Failing -------------------------------
(* Failures: every template of up to three variables, each of them right or *)
(* wrong in some way, rendered with fewer and with more externals.          *)
EXTENDS Explore, IOUtils

Long == "UTG_LONG" \in DOMAIN IOEnv /\ IOEnv.UTG_LONG = "1"
A == 1072   G == 1075   H == 1093   N == 1085
FaPrelude == <<
  [op |-> "word", t |-> TEXT, f |-> <<<<A>>>>, p |-> <<>>],
  [op |-> "word", t |-> PREPOSITION, f |-> <<<<>>, <<>>, <<>>>>, p |-> <<>>],
  [op |-> "dict", ws |-> <<1>>],
  [op |-> "wf", w |-> 1, p |-> <<>>, fp |-> <<>>],
  [op |-> "wf", w |-> 2, p |-> <<>>, fp |-> <<>>] >>
Bodies == {
  <<A>>,                                   \* a word of the dictionary
  <<G, Bar, H>>,                           \* an external depending on another
  <<N>>,                                   \* an unknown word
  <<N, Bar, H>>,                           \* an unknown word with a dependency
  <<A, Bar, G, Bar, H>>,                   \* two dependencies, one perhaps not given
  <<A, Bar, H, Bar, G>>,
  <<A, Bar, N>>,                           \* an unknown property
  <<A, Bar, 1088, 1076, Comma, N, Comma, A>>, \* two unknown properties
  <<32, Bar, N>>,                          \* no word at all, and an unknown property
  <<37>> }                                 \* a percent sign as a word
Braced(b) == <<Open>> \o b \o <<Close>>
Sentences == {Concat([i \in 1..Len(bs) |-> Braced(bs[i])]) :
                bs \in UNION {[1..m -> Bodies] : m \in 1..(IF Long THEN 3 ELSE 2)}}
FaDepth == 1
FaMenu(s) == {[op |-> "tpl", x |-> x, exts |-> e] : x \in Sentences, e \in {<<<<G>>, <<H>>>>, <<<<H>>>>}}
Gave(k) == CASE k = 0 -> <<>>
             [] k = 1 -> << [n |-> <<G>>, i |-> 1] >>
             [] k = 2 -> << [n |-> <<H>>, i |-> 2] >>
             [] k = 3 -> << [n |-> <<G>>, i |-> 1], [n |-> <<H>>, i |-> 2] >>
FaWatch(s, ev) ==
  << [op |-> "sert", i |-> 1] >>
  \o Concat([k \in 1..4 |-> << [op |-> "tryrender", i |-> 1, d |-> 1, ext |-> Gave(k - 1)],
                               [op |-> "undict", i |-> 1, d |-> 1, ext |-> Gave(k - 1)] >>])

(* What is wrong with one variable, on its own.                             *)
Fault(sub, ids, known) ==
  IF sub.id \notin ids /\ sub.id \notin known THEN << "NoWordsFoundError", sub.id >>
  ELSE LET lost == {i \in 1..Len(sub.deps) : sub.deps[i].ext /\ sub.deps[i].n \notin ids}
       IN IF lost = {} THEN <<>> ELSE << "ExternalDependecyNotFoundError", sub.deps[Min(lost)].n >>
FaTheorems ==
  hist = <<>> \/
  LET ev == hist[1].e
      p == ParseTemplate(ev.x, ToSet(ev.exts))
      vs == Variables(ev.x)
      each == TLCEval([i \in 1..Len(vs) |-> ParseTemplate(SubSeq(ev.x, vs[i][1], vs[i][2]), ToSet(ev.exts))])
      wrong == {i \in 1..Len(each) : each[i].k = "err"}
  IN (* a template is wrong as its first wrong variable is *)
     /\ p.k = (IF wrong = {} THEN "ok" ELSE "err")
     /\ wrong # {} => p = each[Min(wrong)] /\ ~sys.tpls[1].ok
     (* and fails to render as its first failing variable does *)
     /\ wrong = {} => \A k \in 0..3 :
          LET r == Do(sys, [op |-> "render", i |-> 1, d |-> 1, ext |-> Gave(k)]).r
              m == Do(sys, [op |-> "undict", i |-> 1, d |-> 1, ext |-> Gave(k)]).r.v
              fs == TLCEval([i \in 1..Len(sys.tpls[1].subs) |->
                      Fault(sys.tpls[1].subs[i], {Gave(k)[j].n : j \in 1..Len(Gave(k))}, {<<A>>})])
              failing == {i \in 1..Len(fs) : fs[i] # <<>>}
          IN /\ (r.k = "ok") = (failing = {})
             /\ failing # {} => << r.v, r.a >> = fs[Min(failing)]
             (* the missing words are those whose fault is theirs *)
             /\ m = [i \in 1..Cardinality({j \in 1..Len(fs) : fs[j] # <<>> /\ fs[j][1] = "NoWordsFoundError"}) |->
                       SelectSeq(fs, LAMBDA f : f # <<>> /\ f[1] = "NoWordsFoundError")[i][2]]
             (* giving more never makes a word missing *)
             /\ k < 3 => Len(Do(sys, [op |-> "undict", i |-> 1, d |-> 1, ext |-> Gave(3)]).r.v) <= Len(m)
=============================================================================
