----------------------------- MODULE Agreement -----------------------------
(* How a word changes under its dependency on another word.                 *)
EXTENDS Words

(* Numerals.  An integer is [neg, d]: sign and decimal digits without       *)
(* leading zeros (32-bit arithmetic would not do).                          *)
LastDigit(d) == d[Len(d)]
LastTwo(d) == IF Len(d) = 1 THEN d[1] ELSE 10 * d[Len(d) - 1] + d[Len(d)]
IsPower(d, n) == Len(d) = n + 1 /\ d[1] = 1 /\ \A i \in 2..Len(d) : d[i] = 0

NumeralForm(d) ==
  IF IsPower(d, 6) \/ IsPower(d, 9) THEN MIL_BIL
  ELSE IF d = <<1>> THEN ONE
  ELSE IF d \in {<<2>>, <<3>>, <<4>>} THEN DUAL
  ELSE IF LastTwo(d) \in 10..19 THEN MANY
  ELSE IF LastDigit(d) = 1 THEN ONE
  ELSE IF LastDigit(d) \in 2..4 THEN COMPOSITE_DUAL
  ELSE MANY

IntegerProps(n) == Props({<<NUMBER, IF n.d = <<1>> THEN SINGULAR ELSE PLURAL>>,
                          <<INTEGER_FORM, NumeralForm(n.d)>>})
IntegerText(n) == (IF n.neg THEN <<45>> ELSE <<>>) \o [i \in 1..Len(n.d) |-> 48 + n.d[i]]
IntegerWord(n) == [t |-> INTEGER, f |-> <<IntegerText(n)>>, p |-> IntegerProps(n)]

(* Which rule table each cell of the agreement with a numeral uses.         *)
Set3(p, nf, num, case) ==
  LET a == IF nf # 0 THEN With(p, NOUN_FORM, nf) ELSE p
      b == With(a, NUMBER, num)
  IN IF case # 0 THEN With(b, GCASE, case) ELSE b

NounAfterNumeral(p) ==
  LET n == Get(p, INTEGER_FORM)
      c == Get(p, GCASE)
      direct == c \in {NOMINATIVE, ACCUSATIVE}
  IN IF Get(p, DEPENDENCY_MODE) = SEMANTIC
     THEN Set3(p, NORMAL, IF n = ONE THEN SINGULAR ELSE PLURAL, 0)
     ELSE CASE n = ONE -> Set3(p, NORMAL, SINGULAR, 0)
            [] n = DUAL -> IF \/ c = NOMINATIVE
                              \/ c = ACCUSATIVE /\ Get(p, ANIMALITY) = INANIMATE
                           THEN Set3(p, NORMAL, SINGULAR, GENITIVE)
                           ELSE Set3(p, COUNTABLE, PLURAL, 0)
            [] n = COMPOSITE_DUAL -> IF direct THEN Set3(p, NORMAL, SINGULAR, GENITIVE)
                                     ELSE Set3(p, COUNTABLE, PLURAL, 0)
            [] n = MANY -> IF direct THEN Set3(p, COUNTABLE, PLURAL, GENITIVE)
                           ELSE Set3(p, COUNTABLE, PLURAL, 0)
            [] n = MIL_BIL -> Set3(p, COUNTABLE, PLURAL, GENITIVE)

AttributeAfterNumeral(p) ==
  LET n == Get(p, INTEGER_FORM)
      direct == Get(p, GCASE) \in {NOMINATIVE, ACCUSATIVE}
  IN IF Get(p, DEPENDENCY_MODE) = SEMANTIC
     THEN Set3(p, 0, IF n = ONE THEN SINGULAR ELSE PLURAL, 0)
     ELSE CASE n = ONE -> Set3(p, 0, SINGULAR, 0)
            [] n = DUAL -> IF ~direct THEN Set3(p, 0, PLURAL, 0)
                           ELSE IF Get(p, GENDER) = FEMININE
                                THEN Set3(p, 0, PLURAL, NOMINATIVE)
                                ELSE Set3(p, 0, PLURAL, GENITIVE)
            [] n = COMPOSITE_DUAL -> IF direct THEN Set3(p, 0, SINGULAR, GENITIVE)
                                     ELSE Set3(p, 0, PLURAL, 0)
            [] n = MANY -> IF direct THEN Set3(p, 0, PLURAL, GENITIVE)
                           ELSE Set3(p, 0, PLURAL, 0)
            [] n = MIL_BIL -> Set3(p, 0, PLURAL, GENITIVE)

(* Prepositions: x is their normal form, m the governed word and y the text *)
(* it shows.                                                                *)
V == 1074   S == 1089   O == 1086
SpecialAfterO == { <<1074, 1089, 1077, 1093>>,  \* vsekh
                   <<1084, 1085, 1077>>,        \* mne
                   <<1074, 1089, 1105, 1084>>,  \* vsyom
                   <<1095, 1090, 1086>>,        \* chto
                   <<1074, 1089, 1077, 1081>> } \* vsey

PrepositionForm(p, x, m, y) ==
  LET z == LowerText(y)
  IN IF x # <<>> /\ x[Len(x)] \in Consonants
     THEN IF \/ Cluster(z) /\ Syllables(m) = 1 /\ FluentVowel(m)
             \/ x \in {<<V>>, <<S>>} /\ Cluster(z) /\ z[1] = x[1]
          THEN With(p, PREPOSITION_FORM, ALTERNATIVE) ELSE p
     ELSE IF x = <<O>> /\ z \in SpecialAfterO THEN With(p, PREPOSITION_FORM, SPECIAL)
     ELSE IF z # <<>> /\ z[1] \in Vowels \ JVowels THEN With(p, PREPOSITION_FORM, ALTERNATIVE)
     ELSE p

(* The properties of word w requested as p after agreeing with form y of m. *)
Agree(w, p, m, y) ==
  IF w.t = PREPOSITION THEN PrepositionForm(p, NormalForm(w), m, y)
  ELSE IF m.t = INTEGER /\ w.t \in {NOUN, PRONOUN} THEN NounAfterNumeral(p)
  ELSE IF m.t = INTEGER /\ w.t \in {ADJECTIVE, PARTICIPLE, VERB} THEN AttributeAfterNumeral(p)
  ELSE p
=============================================================================
