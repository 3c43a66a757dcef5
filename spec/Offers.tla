-------------------------------- MODULE Offers --------------------------------
(* Lexicons: every history of additions, with all queries.                  *)
EXTENDS Explore, IOUtils

A == INSTANCE Abstract

Long == "UTG_LONG" \in DOMAIN IOEnv /\ IOEnv.UTG_LONG = "1"
LexCall(o, key, r) == [op |-> o, l |-> 1, key |-> key, r |-> SetToSortSeq(r, <), dflt |-> FALSE]
K == <<1082>>   L == <<1083>>   N == <<1085>>
OffPrelude == << [op |-> "lex", l |-> 0, key |-> <<>>, r |-> <<>>, dflt |-> FALSE],
                 [op |-> "tpl", x |-> <<49>>, exts |-> <<>>],
                 [op |-> "tpl", x |-> <<50>>, exts |-> <<>>],
                 [op |-> "tpl", x |-> <<49>>, exts |-> <<>>] >>
OffDepth == IF Long THEN 3 ELSE 2
Sets == SUBSET (1..2)
OffMenu(s) == {[l |-> 1, op |-> "ladd", key |-> key, r |-> SetToSortSeq(r, <), dflt |-> FALSE, t |-> t] :
                 key \in {K, L}, r \in Sets \cup {{3}}, t \in 1..(IF Long THEN 2 ELSE 3)}
SetSeq == << {}, {1}, {2}, {1, 2}, {1, 3}, {1, 2, 3} >>
OffWatch(s, ev) ==
  Concat([i \in 1..Len(SetSeq) |->
    << LexCall("lget", K, SetSeq[i]), LexCall("lrand", K, SetSeq[i]), LexCall("lnear", K, SetSeq[i]) >>])
  \o << LexCall("lget", L, {1, 2}), LexCall("lnear", L, {1, 2, 3}), LexCall("lget", N, {1, 2}),
        LexCall("lrand", N, {}), LexCall("lnear", N, {1}),
        LexCall("lhas", K, {}), LexCall("lhas", L, {}), LexCall("lhas", N, {}) >>

OffTheorems ==
  LET lex == sys.lexes[1] IN
  \A key \in {K, L, N} : \A r \in ToSet(SetSeq) :
    LET e == ToSet(EligibleTemplates(lex, key, r))
        known == \E i \in 1..Len(hist) : hist[i].e.key = key
    IN /\ (key \in DOMAIN lex) = known
       /\ (e # {}) = (\E i \in 1..Len(hist) : hist[i].e.key = key /\ ToSet(hist[i].e.r) \subseteq r)
       /\ e # {} => /\ Nearest(lex, key, r) \subseteq e
                    /\ Nearest(lex, key, r) # {}
       /\ (ChoiceError(lex, key, r) = "") = (e # {})
       (* the laws proved in Proofs.tla are about these operations *)
       /\ key \in DOMAIN lex =>
            LET fit == A!Fitting(ToSet(lex[key]), r)
            IN /\ e = {x.t : x \in fit}
               /\ Nearest(lex, key, r) = {x.t : x \in A!Most(fit, [x \in fit |-> Cardinality(x.r)])}
       (* more restrictions satisfied never means fewer templates *)
       /\ \A q \in ToSet(SetSeq) : r \subseteq q => e \subseteq ToSet(EligibleTemplates(lex, key, q))
=============================================================================
