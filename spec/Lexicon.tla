------------------------------ MODULE Lexicon ------------------------------
(* A lexicon maps keys to sequences of [t, r]: template and restrictions.   *)
EXTENDS Text

EmptyLexicon == [k \in {} |-> <<>>]
AddTo(lex, k, t, r) ==
  TLCEval([x \in DOMAIN lex \cup {k} |->
     (IF x \in DOMAIN lex THEN lex[x] ELSE <<>>)
     \o (IF x = k THEN <<[t |-> t, r |-> r]>> ELSE <<>>)])

Eligible(lex, k, r) ==
  IF k \notin DOMAIN lex THEN <<>> ELSE SelectSeq(lex[k], LAMBDA e : e.r \subseteq r)
EligibleTemplates(lex, k, r) == LET e == Eligible(lex, k, r) IN [i \in 1..Len(e) |-> e[i].t]

Nearest(lex, k, r) ==
  LET e == Eligible(lex, k, r)
      best == Max({Cardinality(e[i].r) : i \in 1..Len(e)})
  IN {e[i].t : i \in {j \in 1..Len(e) : Cardinality(e[j].r) = best}}

ChoiceError(lex, k, r) ==
  IF k \notin DOMAIN lex THEN "UnknownLexiconKeyError"
  ELSE IF Eligible(lex, k, r) = <<>> THEN "NoTemplatesWithSpecifiedRestrictions"
  ELSE ""
=============================================================================
