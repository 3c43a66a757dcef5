------------------------------- MODULE Merging -------------------------------
(* Property sets: every pair of short lists of sources.                     *)
EXTENDS UTG, Json, IOUtils

A == INSTANCE Abstract

VARIABLES srcs, extra, ready

Long == "UTG_LONG" \in DOMAIN IOEnv /\ IOEnv.UTG_LONG = "1"
Sources1 == << <<>>, <<1, 1>>, <<1, 2>>, <<3, 2>>, <<13, 1>>, <<13, 2>>,
               Props({<<1, 2>>, <<3, 1>>}), Props({<<1, 1>>, <<13, 1>>}), NoProps >>
Lists(n) == UNION {[1..m -> ToSet(Sources1)] : m \in 0..n}

Init == srcs = <<>> /\ extra = <<>> /\ ready = FALSE
Next == /\ ~ready
        /\ ready' = TRUE
        /\ \E a \in Lists(2) : \E b \in Lists(IF Long THEN 2 ELSE 1) : srcs' = a /\ extra' = b
Emit == PrintT("EMIT " \o ToJson([a |-> srcs', b |-> extra']))

MergeTheorems ==
  ~ready \/
  LET p == Collect(NoProps, srcs)
      q == Collect(p, extra)
  IN /\ q = Collect(NoProps, srcs \o extra)
     (* the last source that names a kind decides it *)
     /\ \A k \in Kinds :
          LET all == srcs \o extra
              named == {i \in 1..Len(all) : ItemProps(all[i])[k] # 0}
          IN q[k] = IF named = {} THEN 0 ELSE ItemProps(all[Max(named)])[k]
     /\ Distance(q) <= Cardinality({k \in Kinds : q[k] # 0})
     /\ Collect(q, <<q>>) = q
     (* the laws proved in Proofs.tla are about this operation *)
     /\ Merge(p, q) = A!Over(p, q)
     /\ \A x \in ToSet(extra) : Merge(p, ItemProps(x)) = A!Over(p, ItemProps(x))
     /\ FromFacts(Facts(q)) = q
=============================================================================
