-------------------------------- MODULE Text --------------------------------
(* Texts are sequences of Unicode code points.  Letter case is modelled for *)
(* the Cyrillic (with extensions), ASCII and Latin-1 letters; every other   *)
(* character is caseless (the drivers use no other cased letters).          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

(* Blocks in which a small letter follows its capital. *)
EvenPairs == (1120..1153) \cup (1162..1215) \cup (1232..1327)
OddPairs == 1217..1230

Upper(c) ==
  IF c \in 1072..1103 THEN c - 32
  ELSE IF c \in 1104..1119 THEN c - 80
  ELSE IF c \in EvenPairs THEN c - (c % 2)
  ELSE IF c \in OddPairs THEN c - 1 + (c % 2)
  ELSE IF c = 1231 THEN 1216
  ELSE IF c \in 97..122 THEN c - 32
  ELSE IF c \in 224..254 /\ c # 247 THEN c - 32
  ELSE IF c = 255 THEN 376
  ELSE IF c = 181 \/ c = 956 THEN 924
  ELSE c

Lower(c) ==
  IF c \in 1040..1071 THEN c + 32
  ELSE IF c \in 1024..1039 THEN c + 80
  ELSE IF c \in EvenPairs THEN c + 1 - (c % 2)
  ELSE IF c \in OddPairs THEN c + (c % 2)
  ELSE IF c = 1216 THEN 1231
  ELSE IF c \in 65..90 THEN c + 32
  ELSE IF c \in 192..222 /\ c # 215 THEN c + 32
  ELSE IF c = 376 THEN 255
  ELSE IF c = 924 THEN 956
  ELSE IF c = 7838 THEN 223
  ELSE c

IsUpper(c) == Lower(c) # c

IsSpace(c) == c \in (9..13) \cup (28..32) \cup {133, 160, 5760} \cup (8192..8202)
                    \cup {8232, 8233, 8239, 8287, 12288}

LowerText(t) == TLCEval([i \in 1..Len(t) |-> Lower(t[i])])

(* The capital of the sharp s is written with two letters. *)
Capitalize(t) == IF t = <<>> THEN t
                 ELSE (IF t[1] = 223 THEN <<83, 83>> ELSE <<Upper(t[1])>>) \o Tail(t)

Strip(t) ==
  LET solid == {i \in 1..Len(t) : ~IsSpace(t[i])}
  IN  IF solid = {} THEN <<>> ELSE SubSeq(t, Min(solid), Max(solid))

(* The parts of t between the separators, always at least one.             *)
Split(t, sep) ==
  LET cuts == <<0>> \o SetToSortSeq({i \in 1..Len(t) : t[i] = sep}, <) \o <<Len(t) + 1>>
  IN  [i \in 1..(Len(cuts) - 1) |-> SubSeq(t, cuts[i] + 1, cuts[i + 1] - 1)]

Concat(ts) == FoldLeft(LAMBDA acc, t : acc \o t, <<>>, ts)

StartsWith(t, p) == Len(p) <= Len(t) /\ \A i \in 1..Len(p) : t[i] = p[i]

(* Python's order on texts and on lists of texts.                          *)
TextLess(a, b) ==
  LET d == {i \in 1..Min({Len(a), Len(b)}) : a[i] # b[i]}
  IN  IF d = {} THEN Len(a) < Len(b) ELSE LET i == Min(d) IN a[i] < b[i]

TextsLess(a, b) ==
  LET d == {i \in 1..Min({Len(a), Len(b)}) : a[i] # b[i]}
  IN  IF d = {} THEN Len(a) < Len(b) ELSE LET i == Min(d) IN TextLess(a[i], b[i])
=============================================================================
