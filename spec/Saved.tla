-------------------------------- MODULE Saved --------------------------------
(* Saved documents: every small set of stored facts, known and unknown, and *)
(* every small template document.                                           *)
EXTENDS UTG, Json, IOUtils

VARIABLES chosen

Long == "UTG_LONG" \in DOMAIN IOEnv /\ IOEnv.UTG_LONG = "1"

(* Facts: numbers of kinds and of values, some of which do not exist.  Each *)
(* kind is named at most once, as in any document.                          *)
SomeKinds == IF Long THEN {0, 2, 4, 5, 8, 12, 19, 21} ELSE {0, 4, 8, 12, 21}
SomeValues == {0, 1, 2, 3, 7, 99}
FactLists(n) == {fs \in [1..n -> SomeKinds \X SomeValues] :
                   \A i, j \in 1..n : i # j => fs[i][1] # fs[j][1]}
PropDocs == FactLists(0) \cup FactLists(1) \cup FactLists(2)
            \cup {fs \in FactLists(3) : Long \/ (fs[1][1] = 8 /\ fs[2][1] < fs[3][1])}

(* Templates: one or two variables; "rd" is the identifier of a property.   *)
G == <<1075>>   RD == <<1088, 1076>>
SomeDeps == { [e |-> TRUE, n |-> G, f |-> <<>>], [e |-> TRUE, n |-> RD, f |-> <<>>], [e |-> TRUE, n |-> <<>>, f |-> <<>>],
              [e |-> FALSE, n |-> <<>>, f |-> <<>>], [e |-> FALSE, n |-> <<>>, f |-> << <<0, 2>>, <<8, 1>>, <<2, 1>> >>],
              [e |-> FALSE, n |-> <<>>, f |-> << <<2, 7>> >>] }
DepLists(n) == UNION {[1..m -> SomeDeps] : m \in 0..n}
Lits == { <<>>, <<37>>, <<37, 115>>, <<115, 37>>, <<91, 93>> }
TplDocs == { [lits |-> <<a, b>>, subs |-> << [id |-> x, deps |-> ds] >>] :
               a \in Lits, b \in (IF Long THEN Lits ELSE {<<37>>}), x \in {G, RD}, ds \in DepLists(2) }
           \cup { [lits |-> <<a>>, subs |-> <<>>] : a \in Lits }

Init == chosen = [k |-> ""]
Next == /\ chosen.k = ""
        /\ \/ \E fs \in PropDocs : chosen' = [k |-> "facts", f |-> fs]
           \/ \E dd \in TplDocs : chosen' = [k |-> "template", doc |-> dd]
Emit == PrintT("EMIT " \o ToJson(chosen'))

IsKnown(fact) == \E k \in Kinds : KindNum[k] = fact[1] /\ \E v \in 1..NVals[k] : ValNum[k][v] = fact[2]

FactTheorems(fs) ==
  LET p == FromFacts(fs)
      back == Facts(p)
  IN (* exactly the known facts are kept *)
     /\ ToSet(back) = {fs[i] : i \in {j \in 1..Len(fs) : IsKnown(fs[j])}}
     (* the order in the document does not matter *)
     /\ FromFacts(Reverse(fs)) = p
     (* loading what was saved gives the same object and the same document *)
     /\ FromFacts(back) = p
     /\ \A i, j \in 1..Len(back) : i < j => back[i][1] < back[j][1]
     (* the same through words *)
     /\ \A t \in {TEXT, PREPOSITION} :
          LET w == [t |-> t, f |-> [i \in 1..NSlots[t] |-> <<i>>], p |-> p]
              d == WordDoc(w)
          IN [t |-> TypeByNum(d.t), f |-> d.f, p |-> FromFacts(d.p)] = w

(* Reading the stored format back: %s stands for a variable, %% for %.      *)
RECURSIVE Unformat(_, _, _)
Unformat(x, cur, out) ==
  IF x = <<>> THEN Append(out, cur)
  ELSE IF x[1] = 37 /\ Len(x) > 1 /\ x[2] = 115 THEN Unformat(SubSeq(x, 3, Len(x)), <<>>, Append(out, cur))
  ELSE IF x[1] = 37 THEN Unformat(SubSeq(x, 3, Len(x)), Append(cur, 37), out)
  ELSE Unformat(Tail(x), Append(cur, x[1]), out)

TemplateTheorems(dd) ==
  LET one == LoadedTemplate(dd)
      d == TemplateDoc(one)
      two == LoadedTemplate([lits |-> Unformat(d.fmt, <<>>, <<>>), subs |-> d.subs])
  IN /\ two = one
     /\ TemplateDoc(two) = d
     /\ one.lits = dd.lits
     (* an external is never taken for a property set, nor the other way *)
     /\ \A i \in 1..Len(dd.subs) : \A j \in 1..Len(dd.subs[i].deps) :
          one.subs[i].deps[j].ext = dd.subs[i].deps[j].e

SavedTheorems ==
  CASE chosen.k = "facts" -> FactTheorems(chosen.f)
    [] chosen.k = "template" -> TemplateTheorems(chosen.doc)
    [] OTHER -> TRUE

(* Numbers and identifiers name one thing each. *)
Facets == UNION {{<<k, v>> : v \in 1..NVals[k]} : k \in Kinds}
ASSUME \A k \in Kinds : \A l \in Kinds : k # l => KindNum[k] # KindNum[l]
ASSUME \A k \in Kinds : Len(ValNum[k]) = NVals[k] /\ Len(MarkupId[k]) = NVals[k]
ASSUME \A a \in Facets : \A b \in Facets :
         a # b => /\ MarkupId[a[1]][a[2]] # MarkupId[b[1]][b[2]]
                  /\ a[1] = b[1] => ValNum[a[1]][a[2]] # ValNum[b[1]][b[2]]
ASSUME \A a \in Facets : ValueOf(MarkupId[a[1]][a[2]]) = a
(* Every single value and every pair survives saving. *)
ASSUME \A a \in Facets : \A b \in Facets :
         LET p == Merge(Props({a}), Props({b})) IN FromFacts(Facts(p)) = p
(* Identifiers are written in small letters without spaces and separators.  *)
ASSUME \A a \in Facets : LET x == MarkupId[a[1]][a[2]]
         IN x # <<>> /\ LowerText(x) = x /\ Strip(x) = x /\ Comma \notin ToSet(x) /\ Bar \notin ToSet(x) /\ Close \notin ToSet(x)
=============================================================================
