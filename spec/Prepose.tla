------------------------------- MODULE Prepose -------------------------------
(* Prepositions before every short word over a small alphabet.              *)
EXTENDS Agreement, Json, IOUtils

VARIABLES first, other

(* a, e (iotated), v, s, b; longer words are sampled by the drivers *)
Letters == {1072, 1077, 1074, 1089, 1073}
Longest == IF "UTG_LONG" \in DOMAIN IOEnv /\ IOEnv.UTG_LONG = "1" THEN 3 ELSE 2
Words1 == UNION {[1..n -> Letters] : n \in 0..2}
Words2 == UNION {[1..n -> Letters] : n \in 0..Longest}

Init == first = <<>> /\ other = <<0>>
Next ==
  /\ other = <<0>>
  /\ \E x \in Words2 : \E y \in Words1 :
       /\ first' = x /\ other' = y
       /\ PrintT("EMIT " \o ToJson([a |-> x, b |-> y]))

Governed == [t |-> PREPOSITION, f |-> <<first, other, other>>, p |-> NoProps]
Prepositions == {<<1074>>, <<1089>>, <<1086>>, <<1082>>, <<1085, 1072>>}
Alt(x, y) == PrepositionForm(NoProps, x, Governed, y)[PREPOSITION_FORM] = ALTERNATIVE

PreposeTheorems ==
  other = <<0>> \/
  \A y \in {first, other} :
     (* letter case does not matter *)
     /\ \A x \in Prepositions : \A p \in {NoProps, Props({<<PREPOSITION_FORM, 1>>})} :
          PrepositionForm(p, x, Governed, y) = PrepositionForm(p, x, Governed, Capitalize(y))
     (* a consonant preposition never changes before a vowel or nothing *)
     /\ (y = <<>> \/ y[1] \in Vowels) => ~Alt(<<1082>>, y) /\ ~Alt(<<1074>>, y)
     (* "v" changes wherever "k" does *)
     /\ Alt(<<1082>>, y) => Alt(<<1074>>, y) /\ Alt(<<1089>>, y)
     (* a vowel preposition changes exactly before a, and not before e *)
     /\ Alt(<<1085, 1072>>, y) = (y # <<>> /\ y[1] = 1072)
     /\ Cluster(y) => Cluster(Capitalize(y))
=============================================================================
