-------------------------------- MODULE Turns --------------------------------
(* Several askers at once. A question may need a value that is derived on   *)
(* first use and kept (the table of small numbers, the phonetics of a word, *)
(* the text of a word form): an asker looks whether it is there, otherwise  *)
(* derives it piece by piece and publishes it whole, then answers from what *)
(* is published. Askers take turns of any length between any two steps.     *)
(* Theorems: only right values are ever published, whatever the schedule,   *)
(* and every answer is the one the question has alone. The schedules are    *)
(* run against the real code, line by line (harness/interp.py, in_turns).   *)
EXTENDS UTG, Json, IOUtils

VARIABLES pc, own, kept, told, turns

Long == "UTG_LONG" \in DOMAIN IOEnv /\ IOEnv.UTG_LONG = "1"
Askers == 1..3
MaxTurns == IF Long THEN 7 ELSE 5

(* A session with one word, one word form and a few questions about them.   *)
SRNA == <<1089, 1086, 1085>>
Session0 ==
  LET w == Do(NewSession, [op |-> "word", t |-> TEXT, f |-> <<SRNA>>, p |-> <<>>]).s
  IN TLCEval(Do(w, [op |-> "wf", w |-> 1, p |-> <<>>, fp |-> Props({<<WORD_CASE, 2>>})]).s)
Num(ds) == [op |-> "intq", n |-> [neg |-> FALSE, d |-> ds]]
(* what is asked; questions with the same need share the kept value.        *)
Asked == << Num(<<5>>), Num(<<2, 1>>), [op |-> "attrs", w |-> 1], [op |-> "peekwf", i |-> 1, first |-> FALSE] >>
Need == <<"numbers", "numbers", "phonetics", "text">>
Cases == {<<1, 2, 1>>, <<1, 1, 3>>, <<3, 3, 3>>, <<4, 3, 4>>}
Right == TLCEval([q \in 1..Len(Asked) |-> AnswerTo(Session0, Asked[q])])
(* What a need keeps: the answers to all its questions.                     *)
Whole(n) == {<<q, Right[q]>> : q \in {x \in 1..Len(Asked) : Need[x] = n}}
Needs == {Need[q] : q \in 1..Len(Asked)}
Nothing == {}

VARIABLE which
Q(a) == which[a]

Init ==
  /\ which \in Cases
  /\ pc = [a \in Askers |-> "look"]
  /\ own = [a \in Askers |-> Nothing]
  /\ kept = [n \in Needs |-> Nothing]
  /\ told = [a \in Askers |-> Nothing]
  /\ turns = <<>>

Go(a, to) == pc' = [pc EXCEPT ![a] = to]
Step(a) ==
  LET n == Need[Q(a)] IN
  /\ UNCHANGED which
  /\ \/ /\ pc[a] = "look"
        /\ Go(a, IF kept[n] = Nothing THEN "derive" ELSE "answer")
        /\ UNCHANGED <<own, kept, told>>
     \/ /\ pc[a] = "derive"
        /\ \E x \in Whole(n) \ own[a] : own' = [own EXCEPT ![a] = @ \cup {x}]
        /\ Go(a, IF own'[a] = Whole(n) THEN "publish" ELSE "derive")
        /\ UNCHANGED <<kept, told>>
     \/ /\ pc[a] = "publish"
        /\ kept' = [kept EXCEPT ![n] = own[a]]
        /\ Go(a, "answer")
        /\ UNCHANGED <<own, told>>
     \/ /\ pc[a] = "answer"
        /\ told' = [told EXCEPT ![a] = {x \in kept[n] : x[1] = Q(a)}]
        /\ Go(a, "done")
        /\ UNCHANGED <<own, kept>>

(* turns: who, and for how many steps.                                      *)
LastTurn == turns[Len(turns)]
Next ==
  \E a \in Askers :
    /\ Step(a)
    /\ turns' = IF turns # <<>> /\ LastTurn[1] = a
                THEN [turns EXCEPT ![Len(turns)] = <<a, @[2] + 1>>]
                ELSE Append(turns, <<a, 1>>)
    /\ Len(turns') <= MaxTurns

Done == \A a \in Askers : pc'[a] = "done"
Emit == Done => PrintT("EMIT " \o ToJson([q |-> which, turns |-> turns']))

PublishedWhole == \A n \in Needs : kept[n] \in {Nothing, Whole(n)}
AnsweredRight == \A a \in Askers : pc[a] = "done" => told[a] = {<<Q(a), Right[Q(a)]>>}
NobodyWaits == \A a \in Askers : pc[a] # "done" => ENABLED Step(a)
TurnsTheorems == PublishedWhole /\ AnsweredRight /\ NobodyWaits
=============================================================================
