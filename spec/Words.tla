------------------------------- MODULE Words -------------------------------
(* Property sets, words, word forms and the phonetic facts about them.      *)
(* A property set is a vector over Kinds, 0 for an unspecified kind.        *)
(* A word is [t, f, p]: part of speech, forms, own properties.              *)
(* A word form is [w, p, fp]: word, properties, form properties.            *)
EXTENDS Grammar

NoProps == [k \in Kinds |-> 0]
Props(facts) == [k \in Kinds |-> IF \E x \in facts : x[1] = k
                                  THEN (CHOOSE x \in facts : x[1] = k)[2] ELSE 0]

(* Later values win. *)
Merge(p, q) == TLCEval([k \in Kinds |-> IF q[k] # 0 THEN q[k] ELSE p[k]])
With(p, k, v) == TLCEval([p EXCEPT ![k] = v])

Default(k) == IF k = WORD_TYPE THEN 0 ELSE 1
Get(p, k) == IF p[k] # 0 THEN p[k] ELSE Default(k)
Distance(p) == Cardinality({k \in Kinds : p[k] # 0 /\ p[k] # Default(k)})

MergeAll(p, qs) == FoldLeft(LAMBDA acc, q : Merge(acc, q), p, qs)

(* Properties that a slot key specifies. *)
SlotProps == TLCEval([t \in Types |-> TLCEval([s \in 1..NSlots[t] |->
               TLCEval(Props(KeyFacts(Schema[t], Slots[t][s])))])])

RawOf(t, p) == [j \in DOMAIN Schema[t] |-> Get(p, Schema[t][j])]
SlotFor(t, p) == SlotOf(t, TLCEval(RawOf(t, p)))

WellFormed(t, f) == Len(f) = NSlots[t]

(* The text a word shows for final properties, and for a request.          *)
Shown(w, p) ==
  LET x == w.f[SlotFor(w.t, p)]
  IN IF Get(p, WORD_CASE) = UPPER THEN Capitalize(x) ELSE x
Inflect(w, p) == w.f[SlotFor(w.t, Merge(p, w.p))]
NormalForm(w) == Inflect(w, w.p)

(* Word forms.  <<>> stands for an argument that is not given.             *)
MkForm(w, p, fp) ==
  LET q == IF p = <<>> THEN w.p ELSE Merge(p, w.p)
  IN [p |-> q, fp |-> IF fp = <<>> THEN q ELSE Merge(fp, w.p)]

(* What a word contributes to a dictionary: for each slot a text and the   *)
(* properties of the form.                                                 *)
SlotFormProps(w, s) == Merge(SlotProps[w.t][s], w.p)
AllForms(w) == TLCEval([s \in 1..NSlots[w.t] |->
                  LET p == SlotFormProps(w, s) IN [x |-> Shown(w, p), p |-> p]])

(* Phonetics. *)
Vowels == {1072, 1077, 1105, 1080, 1086, 1091, 1099, 1101, 1102, 1103}
          \cup {1040, 1045, 1025, 1048, 1054, 1059, 1067, 1069, 1070, 1071}
JVowels == {1077, 1105, 1102, 1103, 1045, 1025, 1070, 1071}
Consonants == ((1040..1103) \cup {1025, 1105}) \ Vowels

VowelsOf(x) == SelectSeq(x, LAMBDA c : c \in Vowels)
Syllables(w) == LET n == Len(VowelsOf(w.f[1])) IN IF n = 0 THEN 1 ELSE n
(* A form that is not given: no text at all (None), or an empty one.      *)
NoText == <<-1>>
Ungiven(x) == x = <<>> \/ x = NoText
FluentVowel(w) == \E i \in 2..Len(w.f) :
                     ~Ungiven(w.f[i]) /\ ~StartsWith(VowelsOf(w.f[i]), VowelsOf(w.f[1]))
Cluster(x) == /\ x # <<>>
              /\ x[1] \in Consonants
              /\ (Len(x) = 1 \/ x[2] \in Consonants)

(* Autofill: which forms are acceptable for slot i of the completed word.  *)
Given(w) == {i \in 1..Len(w.f) : ~Ungiven(w.f[i])}
Fillings(w, i) ==
  IF ~Ungiven(w.f[i]) \/ Given(w) = {} THEN {w.f[i]}
  ELSE {w.f[g] : g \in FillSources(w.t, Given(w), i)}
Filled(w) == [w EXCEPT !.f =
   [i \in 1..Len(w.f) |->
      IF ~Ungiven(w.f[i]) \/ Given(w) = {} THEN w.f[i]
      ELSE w.f[Min(FillSources(w.t, Given(w), i))]]]

=============================================================================
