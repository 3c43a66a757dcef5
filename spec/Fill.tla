--------------------------------- MODULE Fill ---------------------------------
(* Autofill: every set of at most two given slots (all sets for             *)
(* prepositions).                                                           *)
EXTENDS Words, Json, IOUtils

Z == INSTANCE Abstract

VARIABLES typ, slots

Long == "UTG_LONG" \in DOMAIN IOEnv /\ IOEnv.UTG_LONG = "1"
Pairs == {NOUN, VERB} \cup (IF Long THEN {PRONOUN} ELSE {})
Subsets(t) ==
  IF t = PREPOSITION THEN SUBSET (1..3)
  ELSE IF t \in Pairs THEN {{i, j} : i, j \in 1..NSlots[t]} \cup {{}, 1..NSlots[t]}
  ELSE LET some == {i \in 1..NSlots[t] : Long \/ NSlots[t] < 50 \/ i % 9 = 1}
       IN {{i} : i \in some} \cup {{1, i} : i \in {j \in some : j % 5 = 0}}

Init == typ = 0 /\ slots = {}
Next == /\ typ = 0
        /\ \E t \in Types : \E x \in Subsets(t) : typ' = t /\ slots' = x
Emit == PrintT("EMIT " \o ToJson([t |-> typ', g |-> SetToSortSeq(slots', <)]))

Before == [t |-> typ, p |-> NoProps, f |-> [i \in 1..NSlots[typ] |-> IF i \in slots THEN <<i>> ELSE <<>>]]
FillTheorems ==
  typ = 0 \/
  LET after == Filled(Before) IN
  /\ \A i \in slots : after.f[i] = <<i>>
  /\ slots # {} => \A i \in 1..NSlots[typ] :
       /\ after.f[i] # <<>>
       /\ after.f[i] \in Fillings(Before, i)
       (* no given slot is nearer than the one chosen *)
       /\ \A g \in slots : Likeness(Slots[typ][i], Slots[typ][g])
                             <= Likeness(Slots[typ][i], Slots[typ][after.f[i][1]])
  /\ slots = {} => after = Before
  /\ Filled(after) = after
  (* the laws proved in Proofs.tla are about this operation *)
  /\ after.f = Z!Completed(Before.f, <<>>, [i \in DOMAIN Before.f |-> Min(FillSources(typ, slots, i))])
=============================================================================
