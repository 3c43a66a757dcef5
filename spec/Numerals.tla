-------------------------------- MODULE Numerals --------------------------------
(* Agreement with a numeral: every combination of what the rules look at,   *)
(* with theorems about the rules as a whole.                                *)
EXTENDS Agreement, Json

VARIABLES caseof, numeral

Vary == <<ANIMALITY, NUMBER, GENDER, NOUN_FORM, DEPENDENCY_MODE>>
Values(k) == 0..NVals[k]
Requests(c, n) ==
  {Props({<<GCASE, c>>, <<INTEGER_FORM, n>>, <<ANIMALITY, a>>, <<NUMBER, b>>, <<GENDER, g>>,
          <<NOUN_FORM, f>>, <<DEPENDENCY_MODE, m>>}) :
   a \in Values(ANIMALITY), b \in Values(NUMBER), g \in Values(GENDER), f \in Values(NOUN_FORM),
   m \in Values(DEPENDENCY_MODE)}

Init == caseof = -1 /\ numeral = -1
Next ==
  /\ caseof = -1
  /\ \E c \in 0..6 : \E n \in 0..5 :
       /\ caseof' = c /\ numeral' = n
       /\ PrintT("EMIT " \o ToJson([ps |-> SetToSeq(Requests(c, n))]))

Same(p, q, ks) == \A k \in Kinds \ ks : p[k] = q[k]

Theorems(p) ==
  LET a == NounAfterNumeral(p)
      b == AttributeAfterNumeral(p)
      n == Get(p, INTEGER_FORM)
      c == Get(p, GCASE)
  IN (* only number, case and noun form change *)
     /\ Same(p, a, {NUMBER, GCASE, NOUN_FORM})
     /\ Same(p, b, {NUMBER, GCASE})
     (* the meaning of the number alone decides in semantic mode *)
     /\ Get(p, DEPENDENCY_MODE) = SEMANTIC =>
          /\ a[GCASE] = p[GCASE] /\ b[GCASE] = p[GCASE]
          /\ a[NUMBER] = b[NUMBER] /\ a[NUMBER] = (IF n = ONE THEN SINGULAR ELSE PLURAL)
     (* the oblique cases stay as requested, except after a million *)
     /\ c \notin {NOMINATIVE, ACCUSATIVE} /\ n # MIL_BIL =>
          a[GCASE] = p[GCASE] /\ b[GCASE] = p[GCASE]
     (* a noun and its attribute agree in the oblique cases and after one *)
     /\ c \notin {NOMINATIVE, ACCUSATIVE} => a[NUMBER] = b[NUMBER] /\ Get(a, GCASE) = Get(b, GCASE)
     (* repeating the agreement changes nothing in the indirect cases, and the
        result always is a combination the noun has *)
     /\ (a[NOUN_FORM] = COUNTABLE => a[NUMBER] = PLURAL)
     /\ \E s \in 1..NSlots[NOUN] : Covers(Slots[NOUN][s], RawOf(NOUN, a))
     (* nothing but the listed kinds is looked at *)
     /\ a = NounAfterNumeral(Merge(Props({<<GCASE, c>>, <<INTEGER_FORM, n>>}), p)) \/ p[GCASE] = 0 \/ p[INTEGER_FORM] = 0
     /\ AttributeAfterNumeral(With(p, ANIMALITY, 0)) = With(b, ANIMALITY, 0)

AgreeTheorems == caseof = -1 \/ \A p \in Requests(caseof, numeral) : Theorems(p)

(* Numerals: the classification by digits is the classification by value.   *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<n>> ELSE Append(Digits(n \div 10), n % 10)
A == INSTANCE Abstract
ByValue(n) ==
  LET c == A!ClassOf(n)
  IN CASE c = "million" -> MIL_BIL
       [] c \in {"one", "ends in one"} -> ONE
       [] c = "few" -> DUAL
       [] c = "ends in few" -> COMPOSITE_DUAL
       [] c = "many" -> MANY
NumeralTheorem == \A n \in (0..3000) \cup (9990..10130) \cup (999980..1000130) \cup (999999990..1000000130)
                           \cup {2000000, 10000000, 100000000, 2000000000} :
                    NumeralForm(Digits(n)) = ByValue(n)
ASSUME NumeralTheorem
=============================================================================
