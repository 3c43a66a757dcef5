-------------------------------- MODULE Forms --------------------------------
(* Every complete and every partial request for every part of speech.       *)
EXTENDS UTG, Json

VARIABLES typ, head

(* Partial requests: 0 for a kind that is left open; built kind by kind.    *)
Partial(t) ==
  FoldLeft(LAMBDA acc, k : {Append(p, v) : p \in acc, v \in 0..NVals[k]}, {<<>>}, Schema[t])
Vector(t, p) == Props({<<Schema[t][j], p[j]>> : j \in {i \in 1..Len(p) : p[i] # 0}})

(* One state per part of speech and value of the first kind.                *)
Heads(t) == IF Schema[t] = <<>> THEN {0} ELSE 0..NVals[Schema[t][1]]
Requests(t, h) ==
  IF Schema[t] = <<>> THEN {<<>>}
  ELSE {p \in Partial(t) : p[1] = h}

Numbered(t) == [t |-> t, f |-> [i \in 1..NSlots[t] |-> <<i>>], p |-> NoProps]

Init == typ = 0 /\ head = 0
Next == \E t \in Types : \E h \in Heads(t) :
  /\ typ = 0
  /\ typ' = t /\ head' = h
  /\ PrintT("EMIT " \o ToJson([t |-> t, ps |-> SetToSeq({Vector(t, p) : p \in Requests(t, h)})]))

(* Theorems: a request that names no forbidden combination has exactly one  *)
(* slot that covers it; leaving out what the slot does not distinguish, or  *)
(* writing the defaults out, changes nothing; own properties win.           *)
Grammatical(t, raw) == \E s \in 1..NSlots[t] : Covers(Slots[t][s], raw)
Spell(t, p) == TLCEval([k \in Kinds |-> IF \E j \in 1..Len(Schema[t]) : Schema[t][j] = k
                                         THEN Get(p, k) ELSE 0])
FormTheorems ==
  typ = 0 \/
  \A q \in Requests(typ, head) :
    LET p == TLCEval(Vector(typ, q))
        raw == TLCEval(RawOf(typ, p))
        s == SlotFor(typ, p)
    IN /\ s \in 1..NSlots[typ]
       /\ Grammatical(typ, raw) =>
             /\ Covers(Slots[typ][s], raw)
             /\ Cardinality({i \in 1..NSlots[typ] : Covers(Slots[typ][i], raw)}) = 1
       /\ SlotFor(typ, Spell(typ, p)) = s
       /\ Inflect(Numbered(typ), p) = <<s>>
       /\ SlotFor(typ, Merge(p, SlotProps[typ][s])) = s

(* Layout: strictly increasing, every slot answers the request it describes.*)
KeyLess(a, b) == LET d == {i \in DOMAIN a : a[i] # b[i]} IN d # {} /\ a[Min(d)] < b[Min(d)]
ASSUME \A t \in Types : \A i \in 1..(NSlots[t] - 1) : KeyLess(Slots[t][i], Slots[t][i + 1])
ASSUME \A t \in Types : \A i \in 1..NSlots[t] : SlotFor(t, SlotProps[t][i]) = i
ASSUME NSlots = <<18, 101, 48, 20, 148, 1, 1, 3>>
(* Every slot is some complete grammatical request's slot and no blocked    *)
(* property is distinguished.                                               *)
ASSUME \A t \in Types : \A i \in 1..NSlots[t] : \A j, m \in DOMAIN Slots[t][i] :
         <<Schema[t][j], Slots[t][i][j], Schema[t][m]>> \in Blocked[t] => Slots[t][i][m] = 0
=============================================================================
