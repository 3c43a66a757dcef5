------------------------------- MODULE Sources -------------------------------
(* Rendering a variable: every word, every form of it that names it, and    *)
(* every sequence of dependencies, up to a length.                          *)
EXTENDS Explore, IOUtils

Long == "UTG_LONG" \in DOMAIN IOEnv /\ IOEnv.UTG_LONG = "1"

(* Nouns: form i of noun a reads "ai" (two digits).                         *)
Named(c) == [i \in 1..18 |-> <<c, 48 + (i \div 10), 48 + (i % 10)>>]
NounA == 1072   NounB == 1073   NounV == 1074
SrcPrelude == <<
  [op |-> "word", t |-> NOUN, f |-> Named(NounA), p |-> <<>>],
  [op |-> "word", t |-> NOUN, f |-> Named(NounB), p |-> Props({<<NUMBER, PLURAL>>, <<ANIMALITY, INANIMATE>>})],
  [op |-> "word", t |-> NOUN, f |-> Named(NounV), p |-> Props({<<GCASE, 3>>, <<WORD_CASE, UPPER>>})],
  [op |-> "dict", ws |-> <<1, 2, 3>>],
  [op |-> "wf", w |-> 1, p |-> Props({<<NUMBER, PLURAL>>}), fp |-> Props({<<GCASE, 2>>})],                  \* a
  [op |-> "wf", w |-> 1, p |-> Props({<<GCASE, 3>>, <<WORD_CASE, UPPER>>}), fp |-> <<>>],                   \* b
  [op |-> "wf", w |-> 2, p |-> Props({<<NUMBER, SINGULAR>>, <<WORD_CASE, 1>>}), fp |-> <<>>],               \* c
  [op |-> "int", n |-> [neg |-> FALSE, d |-> <<5>>]],                                                       \* n
  [op |-> "int", n |-> [neg |-> FALSE, d |-> <<2, 1>>]] >>                                                  \* o
Passing == << [n |-> <<97>>, i |-> 1], [n |-> <<98>>, i |-> 2], [n |-> <<99>>, i |-> 3],
              [n |-> <<110>>, i |-> 4], [n |-> <<111>>, i |-> 5] >>
Names == {Passing[i].n : i \in 1..5}

(* Texts of dependencies: the externals and some identifiers.               *)
Parts == { <<97>>, <<98>>, <<99>>, <<110>>, <<111>>,
           MarkupId[NUMBER][1], MarkupId[GCASE][4], MarkupId[GCASE][2] \o <<Comma>> \o MarkupId[NUMBER][2],
           MarkupId[WORD_CASE][1], MarkupId[DEPENDENCY_MODE][SEMANTIC] }
PartLists(n) == UNION {[1..m -> Parts] : m \in 0..n}
(* The variable: an external or a dictionary form; also with a capital.     *)
Starts == { <<98>>, <<66>>, <<99>>, Named(NounA)[1], Named(NounA)[8], Named(NounB)[9], Named(NounB)[1],
            <<NounV - 32, 48, 51>>, <<NounA - 32, 48, 50>> }
Markup(x, ps) == <<Open>> \o x \o Concat([i \in 1..Len(ps) |-> <<Bar>> \o ps[i]]) \o <<Close>>

SrcDepth == 1
SrcMenu(s) == {[op |-> "tpl", x |-> Markup(x, ps), exts |-> [i \in 1..5 |-> Passing[i].n]] :
                 x \in Starts, ps \in PartLists(IF Long THEN 3 ELSE 2)}
SrcWatch(s, ev) == << [op |-> "sert", i |-> 1],
                      [op |-> "tryrender", i |-> 1, d |-> 1, ext |-> Passing],
                      [op |-> "undict", i |-> 1, d |-> 1, ext |-> Passing] >>

(* Last writer wins: form of the word, dependencies in order, own           *)
(* properties; then agreement with each numeral in order.                   *)
Asking == [op |-> "render", i |-> 1, d |-> 1, ext |-> Passing]
Writers(sub, base, exts) ==
  <<base.p>> \o TLCEval([i \in 1..Len(sub.deps) |-> IF sub.deps[i].ext THEN exts[sub.deps[i].n].p ELSE sub.deps[i].p])
             \o <<base.w.p>>
LastWriter(ws, k) == LET ns == {i \in 1..Len(ws) : ws[i][k] # 0} IN IF ns = {} THEN 0 ELSE ws[Max(ns)][k]
Raised(x) == Upper(x[1]) = x[1]
SrcTheorems ==
  Len(sys.tpls) = 0 \/
  LET sub == sys.tpls[1].subs[1]
      exts == Externals(sys, Asking)
      dic == Known(sys, sys.tpls[1], 1)
      known == sub.id \in DOMAIN exts \/ sub.id \in DOMAIN dic
      r == Do(sys, Asking).r
  IN /\ Len(sys.tpls[1].subs) = 1
     /\ r.k = (IF known THEN "ok" ELSE "err")
     /\ known =>
        LET base == IF sub.id \in DOMAIN exts THEN exts[sub.id] ELSE dic[sub.id]
            ws == TLCEval(Writers(sub, base, exts))
            final == [k \in Kinds |-> LastWriter(ws, k)]
            numerals == SelectSeq(sub.deps, LAMBDA x : x.ext /\ x.n \in {<<110>>, <<111>>})
        IN /\ base.w.t = NOUN =>
              LET agreed == IF numerals = <<>> THEN final
                            ELSE FoldLeft(LAMBDA acc, x : NounAfterNumeral(acc), final, numerals)
                  shown == base.w.f[SlotFor(NOUN, agreed)]
              IN r.v = (IF agreed[WORD_CASE] = UPPER THEN <<Upper(shown[1])>> ELSE <<shown[1]>>) \o Tail(shown)
           (* what the word fixes cannot be asked away, unless a numeral does *)
           /\ numerals = <<>> => \A k \in Kinds : base.w.p[k] # 0 => final[k] = base.w.p[k]
           (* a capital variable shows a capital unless the word says otherwise *)
           /\ (sub.deps # <<>> /\ ~sub.deps[Len(sub.deps)].ext /\ sub.deps[Len(sub.deps)].p[WORD_CASE] = UPPER
               /\ base.w.p[WORD_CASE] # 1) => Raised(r.v)
=============================================================================
