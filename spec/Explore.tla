------------------------------- MODULE Explore -------------------------------
(* Enumerates bounded histories of the library.  A model gives the objects  *)
(* that exist at the beginning (Prelude), the calls possible in a state     *)
(* (Menu) and the questions asked after a call (Watch).  Every history of   *)
(* Depth calls is printed as a scenario for the real code.                  *)
EXTENDS UTG, Json

CONSTANTS Prelude, Menu(_), Watch(_, _), Depth

VARIABLES sys, hist

After(s, evs) == FoldLeft(LAMBDA acc, ev : TLCEval(Do(acc, ev).s), s, evs)

ExploreInit ==
  /\ sys = After(NewSession, Prelude)
  /\ hist = <<>>
  /\ PrintT("PRELUDE " \o ToJson(Prelude))

ExploreNext ==
  /\ Len(hist) < Depth
  /\ \E ev \in Menu(sys) :
       \E s \in {TLCEval(Do(sys, ev).s)} :
          /\ sys' = s
          /\ hist' = Append(hist, [e |-> ev, w |-> Watch(s, ev)])

(* Scenarios: complete histories only. *)
Emit == IF Len(hist') = Depth THEN PrintT("EMIT " \o ToJson(hist')) ELSE TRUE

(* Questions change nothing (the one thing all models check). *)
QuestionsChangeNothing ==
  \A i \in 1..Len(hist) : \A j \in 1..Len(hist[i].w) :
     hist[i].w[j].op \in Mutators \/ Do(sys, hist[i].w[j]).s = sys
=============================================================================
