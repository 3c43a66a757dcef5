------------------------------- MODULE Layouts -------------------------------
(* Theorems about the layouts of saved words and their migrations.          *)
EXTENDS Migrations

VARIABLES epoch, typ
Init == epoch = 0 /\ typ = 0
Next == \E m \in 0..9 : \E t \in Types : typ = 0 /\ epoch' = m /\ typ' = t

(* Within an epoch no two slots mean the same. *)
Distinct == typ = 0 \/ \A i, j \in DOMAIN Epoch(epoch)[typ] :
              i # j => Epoch(epoch)[typ][i] # Epoch(epoch)[typ][j]
(* Every new slot has a source, and a source never contradicts it, but for  *)
(* the present indicative, which verbs did not have before migration 3.     *)
NewMood(slot) == {<<VERB_FORM, 2>>, <<TIME, PRESENT>>} \subseteq slot
Sourced == typ = 0 \/ epoch \notin LayoutMigrations \/
  \A i \in DOMAIN Epoch(epoch)[typ] :
     LET new == Epoch(epoch)[typ][i] IN
     /\ SourceTable[epoch][typ][i] # {}
     /\ \A s \in SourceTable[epoch][typ][i] :
          \/ Agrees(Epoch(epoch - 1)[typ][s], new)
          \/ epoch = 3 /\ typ = VERB /\ NewMood(new) /\ {x \in new : x[1] \in {NUMBER, PERSON}} \subseteq Epoch(2)[typ][s]
(* Through all later migrations as well. *)
Beginning(e, t) == CASE t = NOUN \/ t = PREPOSITION -> Epoch6[t] [] OTHER -> Epoch(e)[t]
Chained == typ = 0 \/ epoch = 9 \/ \A i \in 1..NSlots[typ] :
  /\ ChainTable(epoch)[typ][i] # {}
  /\ \A s \in ChainTable(epoch)[typ][i] :
       \/ Agrees(Beginning(epoch, typ)[s], Current[typ][i])
       \/ epoch < 3 /\ typ = VERB /\ NewMood(Current[typ][i])
(* The forms added by 2 and 4 are the ones the layouts of their time add.   *)
Added == typ = 0 \/ epoch # 2 \/
  /\ SubSeq(Epoch2[NOUN], 13, 18) = [i \in 1..6 |-> {<<NOUN_FORM, 2>>, <<NUMBER, PLURAL>>, <<GCASE, i>>}]
  /\ \A i \in 1..12 : Epoch2[NOUN][i] = Epoch1[NOUN][i] \cup {<<NOUN_FORM, 1>>}
  /\ SubSeq(Epoch4[PREPOSITION], 1, 2) = Epoch3[PREPOSITION]
  /\ Len(Epoch4[PREPOSITION]) = 3
Sizes == \A t \in Types :
  /\ Len(Epoch0[t]) = <<12, 144, 72, 37, 192, 1, 1, 2>>[t]
  /\ Len(Epoch1[t]) = <<12, 148, 72, 37, 196, 1, 1, 2>>[t]
  /\ Len(Epoch2[t]) = <<18, 148, 72, 37, 196, 1, 1, 2>>[t]
  /\ Len(Epoch3[t]) = <<18, 148, 72, 27, 196, 1, 1, 2>>[t]
  /\ Len(Epoch4[t]) = <<18, 148, 72, 27, 196, 1, 1, 3>>[t]
  /\ Len(Epoch6[t]) = <<18, 148, 72, 27, 292, 1, 1, 3>>[t]
  /\ Len(Epoch7[t]) = <<18, 101, 72, 20, 148, 1, 1, 3>>[t]
  /\ Len(Epoch8[t]) = <<18, 101, 72, 20, 148, 1, 1, 3>>[t]
=============================================================================
