------------------------------- MODULE Proofs -------------------------------
EXTENDS Abstract, TLAPS

(* --- Property sets: any kinds, any values. *)
THEOREM OverAssociative ==
  ASSUME NEW K, NEW p \in [K -> Nat], NEW q \in [K -> Nat], NEW s \in [K -> Nat]
  PROVE  Over(Over(p, q), s) = Over(p, Over(q, s))
BY DEF Over

THEOREM OverIdempotent ==
  ASSUME NEW K, NEW p \in [K -> Nat]
  PROVE  Over(p, p) = p
BY DEF Over

THEOREM OverNothing ==
  ASSUME NEW K, NEW p \in [K -> Nat], NEW z \in [K -> {0}]
  PROVE  Over(p, z) = p /\ Over(z, p) = p
BY DEF Over

THEOREM OverLaterWins ==
  ASSUME NEW K, NEW p \in [K -> Nat], NEW q \in [K -> Nat], NEW k \in K
  PROVE  /\ q[k] # 0 => Over(p, q)[k] = q[k]
         /\ q[k] = 0 => Over(p, q)[k] = p[k]
BY DEF Over

(* Adding the same properties again changes nothing.                        *)
THEOREM OverAbsorbs ==
  ASSUME NEW K, NEW p \in [K -> Nat], NEW q \in [K -> Nat]
  PROVE  Over(Over(p, q), q) = Over(p, q)
BY DEF Over

(* Sources that speak of different kinds may come in any order.             *)
THEOREM OverCommutes ==
  ASSUME NEW K, NEW p \in [K -> Nat], NEW q \in [K -> Nat], NEW s \in [K -> Nat],
         \A k \in K : q[k] = 0 \/ s[k] = 0
  PROVE  Over(Over(p, q), s) = Over(Over(p, s), q)
BY DEF Over

(* --- Offers: any entries, any restrictions. *)
THEOREM FittingMonotone ==
  ASSUME NEW E, NEW r, NEW s, r \subseteq s
  PROVE  Fitting(E, r) \subseteq Fitting(E, s)
BY DEF Fitting

THEOREM FittingGrows ==
  ASSUME NEW E, NEW F, NEW r
  PROVE  Fitting(E \cup F, r) = Fitting(E, r) \cup Fitting(F, r)
BY DEF Fitting

THEOREM FittingUnrestricted ==
  ASSUME NEW E, NEW e \in E, e.r = {}, NEW r
  PROVE  e \in Fitting(E, r)
BY DEF Fitting

THEOREM MostFits ==
  ASSUME NEW E, NEW r, NEW size
  PROVE  Most(Fitting(E, r), size) \subseteq Fitting(E, r)
BY DEF Most

THEOREM MostAlike ==
  ASSUME NEW E, NEW size \in [E -> Nat], NEW a \in Most(E, size), NEW b \in Most(E, size)
  PROVE  size[a] = size[b]
BY DEF Most

(* --- Homonyms: any entries, any ranks. *)
THEOREM KeptBest ==
  ASSUME NEW E, NEW rank \in [E -> Int], NEW a \in E, NEW b \in E
  PROVE  /\ Kept(a, b, rank) \in {a, b}
         /\ rank[Kept(a, b, rank)] <= rank[a]
         /\ rank[Kept(a, b, rank)] <= rank[b]
BY DEF Kept

(* Different ranks: the order of adding does not matter.                    *)
THEOREM KeptAnyOrder ==
  ASSUME NEW E, NEW rank \in [E -> Int], NEW a \in E, NEW b \in E, NEW c \in E,
         b = c \/ rank[b] # rank[c]
  PROVE  Kept(Kept(a, b, rank), c, rank) = Kept(Kept(a, c, rank), b, rank)
BY DEF Kept

THEOREM KeptAgain ==
  ASSUME NEW E, NEW rank \in [E -> Int], NEW a \in E, NEW b \in E
  PROVE  Kept(Kept(a, b, rank), b, rank) = Kept(a, b, rank)
BY DEF Kept

(* --- Autofill: any slots, any forms, any choice among the given ones. *)
THEOREM CompletedKeeps ==
  ASSUME NEW I, NEW F, NEW f \in [I -> F], NEW none, NEW near, NEW i \in Given(f, none)
  PROVE  Completed(f, none, near)[i] = f[i]
BY DEF Completed, Given

THEOREM CompletedNothingLeft ==
  ASSUME NEW I, NEW F, NEW f \in [I -> F], NEW none, NEW near \in [I -> Given(f, none)], Given(f, none) # {}
  PROVE  /\ Given(Completed(f, none, near), none) = I
         /\ \A i \in I : \E g \in Given(f, none) : Completed(f, none, near)[i] = f[g]
BY DEF Completed, Given

THEOREM CompletedNothingGiven ==
  ASSUME NEW I, NEW F, NEW f \in [I -> F], NEW none, NEW near, Given(f, none) = {}
  PROVE  Completed(f, none, near) = f
BY DEF Completed, Given

(* Completing again changes nothing, even with other choices.               *)
THEOREM CompletedAgain ==
  ASSUME NEW I, NEW F, NEW f \in [I -> F], NEW none, NEW near \in [I -> Given(f, none)], NEW other,
         Given(f, none) # {}
  PROVE  Completed(Completed(f, none, near), none, other) = Completed(f, none, near)
BY DEF Completed, Given

(* --- Numerals: all of them. *)
THEOREM ClassTotal ==
  ASSUME NEW n \in Nat
  PROVE  ClassOf(n) \in {"million", "one", "few", "many", "ends in one", "ends in few"}
BY DEF ClassOf

THEOREM ClassByLastDigits ==
  ASSUME NEW n \in Nat, NEW m \in Nat, n > 4, m > 4,
         n \notin {1000000, 1000000000}, m \notin {1000000, 1000000000},
         n % 100 = m % 100, n % 10 = m % 10
  PROVE  ClassOf(n) = ClassOf(m)
BY DEF ClassOf

THEOREM ClassOfTens ==
  ASSUME NEW q \in Nat, NEW d \in 0..9, q % 10 = 1, (10 * q + d) % 100 = 10 + d,
         10 * q + d \notin {1000000, 1000000000}, 10 * q + d > 4
  PROVE  ClassOf(10 * q + d) = "many"
BY DEF ClassOf

-----------------------------------------------------------------------------
(* --- Askers at once: any number of askers and needs, any schedule. The    *)
(* algorithm of Turns.tla without the record of turns.                      *)
CONSTANTS Askers, Needs, Whole, Need
ASSUME NeedType == Need \in [Askers -> Needs]
ASSUME WholeType == \A n \in Needs : Whole[n] # {}

VARIABLES pc, own, kept, told
vars == <<pc, own, kept, told>>

Init ==
  /\ pc = [a \in Askers |-> "look"]
  /\ own = [a \in Askers |-> {}]
  /\ kept = [n \in Needs |-> {}]
  /\ told = [a \in Askers |-> {}]

Look(a) ==
  /\ pc[a] = "look"
  /\ pc' = [pc EXCEPT ![a] = IF kept[Need[a]] = {} THEN "derive" ELSE "answer"]
  /\ UNCHANGED <<own, kept, told>>
Derive(a) ==
  /\ pc[a] = "derive"
  /\ \E x \in Whole[Need[a]] : own' = [own EXCEPT ![a] = own[a] \cup {x}]
  /\ pc' = [pc EXCEPT ![a] = IF own'[a] = Whole[Need[a]] THEN "publish" ELSE "derive"]
  /\ UNCHANGED <<kept, told>>
Publish(a) ==
  /\ pc[a] = "publish"
  /\ kept' = [kept EXCEPT ![Need[a]] = own[a]]
  /\ pc' = [pc EXCEPT ![a] = "answer"]
  /\ UNCHANGED <<own, told>>
Answer(a) ==
  /\ pc[a] = "answer"
  /\ told' = [told EXCEPT ![a] = kept[Need[a]]]
  /\ pc' = [pc EXCEPT ![a] = "done"]
  /\ UNCHANGED <<own, kept>>
Next == \E a \in Askers : Look(a) \/ Derive(a) \/ Publish(a) \/ Answer(a)
Spec == Init /\ [][Next]_vars

Inv ==
  /\ pc \in [Askers -> {"look", "derive", "publish", "answer", "done"}]
  /\ own \in [Askers -> SUBSET UNION {Whole[n] : n \in Needs}]
  /\ DOMAIN kept = Needs /\ DOMAIN told = Askers
  /\ \A n \in Needs : kept[n] = {} \/ kept[n] = Whole[n]
  /\ \A a \in Askers :
       /\ pc[a] = "publish" => own[a] = Whole[Need[a]]
       /\ pc[a] \in {"answer", "done"} => kept[Need[a]] = Whole[Need[a]]
       /\ pc[a] = "done" => told[a] = Whole[Need[a]]
  /\ kept = [n \in Needs |-> kept[n]] /\ told = [a \in Askers |-> told[a]]

AnsweredRight == \A a \in Askers : pc[a] = "done" => told[a] = Whole[Need[a]]

THEOREM Spec => []AnsweredRight
<1>1. Init => Inv
  BY NeedType, WholeType DEF Init, Inv
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2> USE NeedType, WholeType DEF Inv
  <2>1. ASSUME NEW a \in Askers, Look(a) PROVE Inv'
    BY <2>1 DEF Look
  <2>2. ASSUME NEW a \in Askers, Derive(a) PROVE Inv'
    BY <2>2 DEF Derive
  <2>3. ASSUME NEW a \in Askers, Publish(a) PROVE Inv'
    BY <2>3 DEF Publish
  <2>4. ASSUME NEW a \in Askers, Answer(a) PROVE Inv'
    BY <2>4 DEF Answer
  <2>5. CASE UNCHANGED vars
    BY <2>5 DEF vars
  <2> QED
    BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF Next
<1>3. Inv => AnsweredRight
  BY DEF Inv, AnsweredRight
<1> QED
  BY <1>1, <1>2, <1>3, PTL DEF Spec
=============================================================================
