------------------------------ MODULE Grammar ------------------------------
(* The grammar behind the form slots.  A property kind is a number 1..20 in *)
(* the fixed order in which kinds are listed (persistent kind numbers are   *)
(* KindNum); a value of a kind is its position in the kind's list, 0 means  *)
(* "unspecified" in a property set and "not distinguished" in a slot key.   *)
EXTENDS Text

GCASE == 1            ANIMALITY == 2        NUMBER == 3           GENDER == 4
VERB_FORM == 5       TIME == 6             PERSON == 7           ASPECT == 8
ADJ_CATEGORY == 9    GRADE == 10           PRONOUN_CATEGORY == 11
WORD_CASE == 12      WORD_TYPE == 13       INTEGER_FORM == 14    VOICE == 15
PREPOSITION_FORM == 16   ADJECTIVE_FORM == 17   PARTICIPLE_FORM == 18
NOUN_FORM == 19      DEPENDENCY_MODE == 20
Kinds == 1..20

(* How many values each kind has. *)
NVals == <<6, 2, 2, 3, 3, 3, 3, 2, 3, 3, 10, 2, 8, 5, 2, 3, 2, 2, 2, 2>>

(* Persistent numbers. *)
KindNum == <<0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20>>
ValNum == [k \in Kinds |->
             CASE k = VERB_FORM -> <<0, 1, 3>>
               [] k = TIME      -> <<1, 2, 3>>
               [] k = WORD_TYPE -> <<0, 1, 2, 3, 4, 5, 6, 10>>
               [] OTHER         -> [v \in 1..NVals[k] |-> v - 1]]

(* Values used below. *)
NOMINATIVE == 1      GENITIVE == 2         ACCUSATIVE == 4
ANIMATE == 1         INANIMATE == 2
SINGULAR == 1        PLURAL == 2
MASCULINE == 1       NEUTER == 2           FEMININE == 3
INFINITIVE == 1      INDICATIVE == 2       IMPERATIVE == 3
PAST == 1            PRESENT == 2          FUTURE == 3
FIRST == 1           SECOND == 2           THIRD == 3
POSITIVE == 1        COMPARATIVE == 2      SUPERLATIVE == 3
UPPER == 2
ONE == 1  DUAL == 2  COMPOSITE_DUAL == 3  MANY == 4  MIL_BIL == 5
FULL == 1            SHORT == 2
NORMAL == 1          COUNTABLE == 2
ALTERNATIVE == 2     SPECIAL == 3
SEMANTIC == 2

(* Parts of speech. *)
NOUN == 1  ADJECTIVE == 2  PRONOUN == 3  VERB == 4  PARTICIPLE == 5
INTEGER == 6  TEXT == 7  PREPOSITION == 8
Types == 1..8
TypeNum == ValNum[WORD_TYPE]

(* A layout is described by its schema (which kinds, in which order), by    *)
(* <<kind, value, kind2>> triples saying that kind2 is not distinguished    *)
(* under that value, and by forbidden combinations of values.               *)
Schema == <<
  <<NOUN_FORM, NUMBER, GCASE>>,
  <<ADJECTIVE_FORM, GRADE, ANIMALITY, NUMBER, GCASE, GENDER>>,
  <<ANIMALITY, NUMBER, GCASE, GENDER>>,
  <<VERB_FORM, TIME, NUMBER, PERSON, GENDER>>,
  <<PARTICIPLE_FORM, TIME, ANIMALITY, NUMBER, GCASE, GENDER>>,
  <<>>,
  <<>>,
  <<PREPOSITION_FORM>> >>

(* The kinds whose values a word has of its own, 1 for those that every     *)
(* word of the part of speech must have.                                    *)
OwnKinds == <<
  <<<<ANIMALITY, 1>>, <<NUMBER, 0>>, <<GENDER, 1>>>>,
  <<<<ADJ_CATEGORY, 1>>>>,
  <<<<PERSON, 0>>, <<PRONOUN_CATEGORY, 1>>>>,
  <<<<ASPECT, 1>>, <<VOICE, 1>>>>,
  <<<<ASPECT, 1>>, <<VOICE, 1>>>>,
  <<<<NUMBER, 1>>, <<INTEGER_FORM, 1>>>>,
  <<>>, <<>> >>

NoGender == {<<NUMBER, PLURAL, GENDER>>}

Blocks(k, v, ks) == {<<k, v, x>> : x \in ks}

Blocked == <<
  NoGender,
  NoGender \cup Blocks(ADJECTIVE_FORM, SHORT, {GCASE, ANIMALITY, GRADE})
           \cup Blocks(GRADE, COMPARATIVE, {NUMBER, GCASE, GENDER, ANIMALITY}),
  NoGender,
  NoGender \cup Blocks(VERB_FORM, INFINITIVE, {TIME, PERSON, NUMBER, GENDER})
           \cup Blocks(VERB_FORM, IMPERATIVE, {TIME, GENDER})
           \cup Blocks(TIME, PAST, {PERSON})
           \cup Blocks(TIME, PRESENT, {GENDER})
           \cup Blocks(TIME, FUTURE, {GENDER}),
  NoGender \cup Blocks(PARTICIPLE_FORM, SHORT, {TIME, VOICE, GCASE, ANIMALITY}),
  {}, {}, {} >>

Forbidden == <<
  { {<<NOUN_FORM, COUNTABLE>>, <<NUMBER, SINGULAR>>} },
  {}, {},
  { {<<VERB_FORM, IMPERATIVE>>, <<PERSON, THIRD>>},
    {<<VERB_FORM, IMPERATIVE>>, <<PERSON, FIRST>>, <<NUMBER, SINGULAR>>} },
  {}, {}, {}, {} >>

KeyFacts(schema, key) == {<<schema[j], key[j]>> : j \in {i \in DOMAIN key : key[i] # 0}}

IsBlocked(schema, blocked, prefix, j) ==
  \E i \in 1..(j - 1) : prefix[i] # 0 /\ <<schema[i], prefix[i], schema[j]>> \in blocked

(* The keys of a schema in lexicographic order, built kind by kind: every    *)
(* prefix is followed by each value of the next kind, or by 0 where a value *)
(* of the prefix blocks that kind.                                          *)
Extend(schema, nvals, blocked, prefix, j) ==
  IF IsBlocked(schema, blocked, prefix, j) THEN << Append(prefix, 0) >>
  ELSE TLCEval([v \in 1..nvals[schema[j]] |-> Append(prefix, v)])

KeysOf(schema, nvals, blocked) ==
  FoldLeft(LAMBDA prefixes, j :
             FoldLeft(LAMBDA acc, p : acc \o Extend(schema, nvals, blocked, p, j), <<>>, prefixes),
           << <<>> >>, [j \in 1..Len(schema) |-> j])

LayoutOf(schema, nvals, blocked, forbidden) ==
  SelectSeq(TLCEval(KeysOf(schema, nvals, blocked)),
            LAMBDA key : ~\E f \in forbidden : f \subseteq KeyFacts(schema, key))

(* Slots[t][i] is the key of the i-th form of a word of type t.             *)
Slots == TLCEval([t \in Types |-> LayoutOf(Schema[t], NVals, Blocked[t], Forbidden[t])])
NSlots == TLCEval([t \in Types |-> Len(Slots[t])])

(* Complete requests: one value for every kind of the schema.               *)
RawKeys(t) == LayoutOf(Schema[t], NVals, {}, {})

Covers(slotKey, raw) == \A j \in DOMAIN raw : slotKey[j] = 0 \/ slotKey[j] = raw[j]

(* Likeness of two keys: agreeing positions, later ones weighing a little   *)
(* more, in hundredths.                                                     *)
Agreeing(a, b) == {j \in DOMAIN a : a[j] = b[j]}
Likeness(a, b) == LET s == Agreeing(a, b)
                  IN 100 * Cardinality(s) + FoldSet(LAMBDA j, acc : acc + j - 1, 0, s)

(* The slot that answers a complete request: the slot covering it, or, for  *)
(* a combination the grammar does not have, the slot of the nearest one it  *)
(* has (the earlier one on a tie).                                          *)
SlotOfRaw(t, raws, raw) ==
  LET hit == {s \in 1..NSlots[t] : Covers(Slots[t][s], raw)}
  IN IF hit # {} THEN Min(hit)
     ELSE LET real == TLCEval({<<s, r>> \in (1..NSlots[t]) \X raws : Covers(Slots[t][s], r)})
              best == Max({Likeness(raw, x[2]) : x \in real})
          IN Min({x[1] : x \in {y \in real : Likeness(raw, y[2]) = best}})

SlotTable == TLCEval([t \in Types |->
               LET raws == TLCEval(ToSet(RawKeys(t)))
               IN TLCEval([raw \in raws |-> SlotOfRaw(t, raws, raw)])])

SlotOf(t, raw) == SlotTable[t][raw]

(* Sources for filling slot i from the given slots: the most alike ones;    *)
(* of those agreeing in the same positions only the earliest.               *)
FillSources(t, given, i) ==
  LET key == Slots[t][i]
      best == Max({Likeness(key, Slots[t][g]) : g \in given})
      top == TLCEval({g \in given : Likeness(key, Slots[t][g]) = best})
  IN {g \in top : ~\E h \in top : h < g /\ Agreeing(key, Slots[t][h]) = Agreeing(key, Slots[t][g])}
=============================================================================
