----------------------------- MODULE Migrations -----------------------------
(* The frozen layouts of saved words and what each migration may do.        *)
(* The meaning of a slot is its set of facts <<kind, value>> in the present *)
(* numbering; the conditional mood, which no longer exists, is value 9.     *)
EXTENDS Grammar

FactsOf(schema, keys) == TLCEval([i \in DOMAIN keys |-> TLCEval(KeyFacts(schema, keys[i]))])

ShortAdjective == Blocks(ADJECTIVE_FORM, SHORT, {GCASE, ANIMALITY, GRADE})
ShortParticiple == Blocks(PARTICIPLE_FORM, SHORT, {TIME, VOICE, GCASE, ANIMALITY})
ComparativeOnly == Blocks(GRADE, COMPARATIVE, {NUMBER, GCASE, GENDER, ANIMALITY})

(* Schemas and restrictions of the superseded layouts (each is a constant   *)
(* of its own so that TLC computes it once).                                *)
AdjSchema6 == <<ADJECTIVE_FORM, NUMBER, GCASE, GENDER, ANIMALITY, GRADE>>
AdjBlocked6 == TLCEval(NoGender \cup ShortAdjective)
AdjKeys6 == TLCEval(LayoutOf(AdjSchema6, NVals, AdjBlocked6, {}))

AdjSchema7 == <<ADJECTIVE_FORM, GRADE, NUMBER, GCASE, GENDER, ANIMALITY>>
AdjBlocked7 == TLCEval(NoGender \cup ShortAdjective \cup ComparativeOnly)
AdjKeys7 == TLCEval(LayoutOf(AdjSchema7, NVals, AdjBlocked7, {}))

PartSchema6 == <<PARTICIPLE_FORM, TIME, VOICE, NUMBER, GCASE, GENDER, ANIMALITY>>
PartSchema7 == <<PARTICIPLE_FORM, TIME, NUMBER, GCASE, GENDER, ANIMALITY>>
PartBlocked == TLCEval(NoGender \cup ShortParticiple)
PartKeys6 == TLCEval(LayoutOf(PartSchema6, NVals, PartBlocked, {}))
PartKeys7 == TLCEval(LayoutOf(PartSchema7, NVals, PartBlocked, {}))

PronSchema6 == <<NUMBER, GCASE, PERSON, GENDER>>
PronKeys6 == TLCEval(LayoutOf(PronSchema6, NVals, NoGender, {}))

OldMood == TLCEval([NVals EXCEPT ![VERB_FORM] = 4])   \* infinitive indicative conditional imperative
VerbSchema6 == <<VERB_FORM, TIME, NUMBER, PERSON, GENDER>>
VerbBlocked6 == TLCEval(NoGender
                        \cup Blocks(VERB_FORM, 1, {TIME, PERSON, NUMBER, GENDER})
                        \cup Blocks(VERB_FORM, 3, {TIME, PERSON})
                        \cup Blocks(VERB_FORM, 4, {TIME, GENDER})
                        \cup {<<TIME, PAST, PERSON>>, <<TIME, PRESENT, GENDER>>, <<TIME, FUTURE, GENDER>>})
VerbKeys6 == TLCEval(LayoutOf(VerbSchema6, OldMood, VerbBlocked6, {}))
PresentMood(x) == IF x[1] # VERB_FORM THEN x
                  ELSE <<VERB_FORM, CASE x[2] = 3 -> 9 [] x[2] = 4 -> 3 [] OTHER -> x[2]>>
VerbFacts6 == TLCEval([i \in DOMAIN VerbKeys6 |->
                TLCEval({PresentMood(x) : x \in KeyFacts(VerbSchema6, VerbKeys6[i])})])

(* Before migration 1: no short forms, no times for genders other than past. *)
AdjSchema0 == <<NUMBER, GCASE, GENDER, ANIMALITY, GRADE>>
AdjKeys0 == TLCEval(LayoutOf(AdjSchema0, NVals, NoGender, {}))
PartSchema0 == <<TIME, VOICE, NUMBER, GCASE, GENDER, ANIMALITY>>
OnlyPastGender == {<<TIME, PRESENT, GENDER>>, <<TIME, FUTURE, GENDER>>}
PartKeys0 == TLCEval(LayoutOf(PartSchema0, NVals, TLCEval(NoGender \cup OnlyPastGender), {}))
PartKeys1 == TLCEval(LayoutOf(PartSchema6, NVals, TLCEval(PartBlocked \cup OnlyPastGender), {}))

(* Before migration 2 nouns had no countable forms; before 4 prepositions   *)
(* had no special form.                                                     *)
NounFacts0 == TLCEval(FactsOf(<<NUMBER, GCASE>>, LayoutOf(<<NUMBER, GCASE>>, NVals, {}, {})))

(* Before migration 3 a verb had a slot for every mood within every time    *)
(* and person, the present being imperative only.                           *)
Moods0 == <<{<<VERB_FORM, 2>>}, {<<VERB_FORM, 9>>}, {<<VERB_FORM, 3>>}>>
PastShapes == <<{<<NUMBER, SINGULAR>>, <<GENDER, 1>>}, {<<NUMBER, SINGULAR>>, <<GENDER, 2>>},
                {<<NUMBER, SINGULAR>>, <<GENDER, 3>>}, {<<NUMBER, PLURAL>>}>>
Persons == TLCEval([i \in 1..6 |-> {<<NUMBER, IF i < 4 THEN SINGULAR ELSE PLURAL>>, <<PERSON, ((i - 1) % 3) + 1>>}])
VerbFacts0 == TLCEval(
  <<{<<VERB_FORM, 1>>}>>
  \o [i \in 1..12 |-> Moods0[((i - 1) % 3) + 1] \cup {<<TIME, PAST>>} \cup PastShapes[((i - 1) \div 3) + 1]]
  \o [i \in 1..6 |-> Moods0[3] \cup {<<TIME, PRESENT>>} \cup Persons[i]]
  \o [i \in 1..18 |-> Moods0[((i - 1) % 3) + 1] \cup {<<TIME, FUTURE>>} \cup Persons[((i - 1) \div 3) + 1]])

(* Epochs of the saved layout: 0 before migration 1, 6 before migration 7,  *)
(* 7 after it, and so on (2 and 4 are stated apart).                        *)
Current == TLCEval([t \in Types |-> FactsOf(Schema[t], Slots[t])])
Epoch6 == TLCEval([t \in Types |->
  CASE t = ADJECTIVE -> FactsOf(AdjSchema6, AdjKeys6)
    [] t = PRONOUN -> FactsOf(PronSchema6, PronKeys6)
    [] t = VERB -> VerbFacts6
    [] t = PARTICIPLE -> FactsOf(PartSchema6, PartKeys6)
    [] OTHER -> Current[t]])
Epoch4 == TLCEval([Epoch6 EXCEPT ![PARTICIPLE] = FactsOf(PartSchema6, PartKeys1)])
Epoch3 == TLCEval([Epoch4 EXCEPT ![PREPOSITION] = SubSeq(@, 1, 2)])
Epoch2 == TLCEval([Epoch3 EXCEPT ![VERB] = VerbFacts0])
Epoch1 == TLCEval([Epoch2 EXCEPT ![NOUN] = NounFacts0])
Epoch0 == TLCEval([Epoch1 EXCEPT ![ADJECTIVE] = FactsOf(AdjSchema0, AdjKeys0),
                                 ![PARTICIPLE] = FactsOf(PartSchema0, PartKeys0)])
Epoch7 == TLCEval([t \in Types |->
  CASE t = ADJECTIVE -> FactsOf(AdjSchema7, AdjKeys7)
    [] t = PRONOUN -> Epoch6[t]
    [] t = PARTICIPLE -> FactsOf(PartSchema7, PartKeys7)
    [] OTHER -> Current[t]])
Epoch8 == TLCEval([t \in Types |-> IF t = PRONOUN THEN Epoch6[t] ELSE Current[t]])

Epoch(m) == CASE m = 0 -> Epoch0 [] m = 1 -> Epoch1 [] m = 2 -> Epoch2 [] m = 3 -> Epoch3 [] m \in {4, 5} -> Epoch4
              [] m = 6 -> Epoch6 [] m = 7 -> Epoch7 [] m = 8 -> Epoch8 [] m = 9 -> Current
LayoutMigrations == {1, 3, 6, 7, 8, 9}

(* Where the form of a new slot may come from: the old slots that agree     *)
(* with it in every property both distinguish (pronouns, which lose the     *)
(* person in 9, keep the third), or any if there is none; of these the ones *)
(* with the most properties in common, so the slot of the same meaning if   *)
(* there is one.                                                            *)
Agrees(a, b) == \A x \in a : \A y \in b : x[1] = y[1] => x[2] = y[2]
Common(a, b) == Cardinality(a \cap b)
Closest(old, is, new) == LET most == Max({Common(old[i], new) : i \in is})
                         IN {i \in is : Common(old[i], new) = most}
Sources(m, old, new) ==
  LET same == {i \in DOMAIN old : old[i] = new}
      like == {i \in DOMAIN old : Agrees(old[i], new)}
      third == {i \in like : <<PERSON, THIRD>> \in old[i]}
  IN IF same # {} THEN same
     ELSE TLCEval(Closest(old, IF like = {} THEN DOMAIN old ELSE IF m = 9 /\ third # {} THEN third ELSE like, new))

SourceTable == TLCEval([m \in LayoutMigrations |-> TLCEval([t \in Types |-> TLCEval(
  IF Epoch(m - 1)[t] = Epoch(m)[t] THEN [i \in DOMAIN Epoch(m)[t] |-> {i}]
  ELSE [i \in DOMAIN Epoch(m)[t] |-> TLCEval(Sources(m, Epoch(m - 1)[t], Epoch(m)[t][i]))])])])

(* A saved word is [t, f, p, pa]: part of speech, forms, sequence of        *)
(* <<kind number, value number>>, forms of patch 7 (if any).                *)
Countable(old) == IF old.t # NOUN THEN old.f
                  ELSE old.f \o (IF old.pa # <<>> THEN old.pa ELSE SubSeq(old.f, 7, Len(old.f)))
Special(t, f) == IF t # PREPOSITION THEN f ELSE Append(f, f[Len(f)])
Timeless(t, p) == IF t # PARTICIPLE THEN p ELSE SelectSeq(p, LAMBDA x : x[1] # KindNum[TIME])

MigratedOk(m, old, new) ==
  /\ new.t = old.t
  /\ CASE m \in LayoutMigrations ->
            /\ new.p = old.p
            /\ IF m \in {1, 3} /\ Epoch(m - 1)[old.t] = Epoch(m)[old.t] THEN new.f = old.f
               ELSE /\ Len(new.f) = Len(Epoch(m)[old.t])
                    /\ \A i \in DOMAIN new.f : \E s \in SourceTable[m][old.t][i] : new.f[i] = old.f[s]
       [] m = 2 -> new.p = old.p /\ new.f = Countable(old)
       [] m = 4 -> new.p = old.p /\ new.f = Special(old.t, old.f)
       [] m = 5 -> new.f = old.f /\ new.p = Timeless(old.t, old.p)

(* Where a form of the present layout may come from through all migrations  *)
(* after an epoch (the forms of 2 and 4 being added beforehand).            *)
Through(m, later) == TLCEval([t \in Types |->
  IF Epoch(m - 1)[t] = Epoch(m)[t] \/ t \in {NOUN, PREPOSITION} THEN later[t]
  ELSE TLCEval([i \in DOMAIN later[t] |-> TLCEval(UNION {SourceTable[m][t][a] : a \in later[t][i]})])])
Chain8 == SourceTable[9]
Chain7 == Through(8, Chain8)
Chain6 == Through(7, Chain7)
Chain5 == Through(6, Chain6)
Chain2 == Through(3, Chain5)
Chain0 == Through(1, Chain2)
ChainTable(e) == CASE e = 0 -> Chain0 [] e \in {1, 2} -> Chain2 [] e \in 3..5 -> Chain5
                   [] e = 6 -> Chain6 [] e = 7 -> Chain7 [] e = 8 -> Chain8

ChainForms(e, old) == LET f == IF e < 2 THEN Countable(old) ELSE old.f
                      IN IF e < 4 THEN Special(old.t, f) ELSE f
ChainProps(e, old) == IF e < 5 THEN Timeless(old.t, old.p) ELSE old.p
ChainOk(e, old, new) ==
  /\ new.t = old.t
  /\ Len(new.f) = NSlots[old.t]
  /\ LET f == TLCEval(ChainForms(e, old)) IN
     \A i \in DOMAIN new.f : \E s \in ChainTable(e)[old.t][i] : new.f[i] = f[s]
=============================================================================
