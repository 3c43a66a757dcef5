------------------------------ MODULE Abstract ------------------------------
(* The core of the specification without bounds: over any kinds, values,    *)
(* templates, entries and askers. The laws of these definitions are proved  *)
(* in Proofs.tla (tlapm); the models Merging, Numerals, Offers and Homonyms *)
(* check with TLC that the executable definitions are these.                *)
EXTENDS Integers

(* Property sets: functions from kinds to values, 0 where nothing is said.  *)
Over(p, q) == [k \in DOMAIN p |-> IF q[k] # 0 THEN q[k] ELSE p[k]]

(* Offers: which of the entries [t, r] fit what is satisfied; the nearest.  *)
Fitting(E, r) == {e \in E : e.r \subseteq r}
Most(E, size) == {e \in E : \A x \in E : size[x] <= size[e]}

(* Homonyms: the entry kept of two offered one after the other.             *)
Kept(a, b, rank) == IF rank[b] < rank[a] THEN b ELSE a

(* Autofill: forms f, none where nothing is given, near the chosen source.  *)
Given(f, none) == {i \in DOMAIN f : f[i] # none}
Completed(f, none, near) ==
  [i \in DOMAIN f |-> IF f[i] # none \/ Given(f, none) = {} THEN f[i] ELSE f[near[i]]]

(* Numerals: the class of an absolute value.                                *)
ClassOf(n) ==
  IF n \in {1000000, 1000000000} THEN "million"
  ELSE IF n = 1 THEN "one"
  ELSE IF n \in 2..4 THEN "few"
  ELSE IF n % 100 \in 10..19 THEN "many"
  ELSE IF n % 10 = 1 THEN "ends in one"
  ELSE IF n % 10 \in 2..4 THEN "ends in few"
  ELSE "many"
=============================================================================
