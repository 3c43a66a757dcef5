------------------------------- MODULE Markup -------------------------------
(* Every text made of a few tokens that matter to the parser.               *)
EXTENDS Templates, Json, IOUtils

VARIABLES tokens

Longest == IF "UTG_LONG" \in DOMAIN IOEnv /\ IOEnv.UTG_LONG = "1" THEN 5 ELSE 4
(* [ ] | , a A space % "rd" "mn" and the name of an external *)
Alphabet == <<<<91>>, <<93>>, <<124>>, <<44>>, <<1072>>, <<1040>>, <<32>>, <<37, 115>>, <<1088, 1076>>, <<1084, 1085>>>>
Externals == {<<1072>>}
Source(ts) == Concat([i \in 1..Len(ts) |-> Alphabet[ts[i]]])

Init == tokens = <<>>
Next == /\ Len(tokens) < Longest
        /\ \E i \in 1..Len(Alphabet) : tokens' = Append(tokens, i)
Emit == PrintT("EMIT " \o ToJson(Source(tokens')))

(* Literal texts and variables, put together, are the source; literals hold *)
(* no variable; the format reads back.                                      *)
Recompose(x) ==
  LET vs == Variables(x)
      ls == Literals(x, vs)
  IN Concat([i \in 1..Len(ls) |-> (IF i = 1 THEN <<>> ELSE SubSeq(x, vs[i - 1][1], vs[i - 1][2])) \o ls[i]]) = x
MarkupTheorems ==
  LET x == Source(tokens)
      r == ParseTemplate(x, Externals)
      up == ParseTemplate(x, {})
  IN /\ Recompose(x)
     /\ \A i \in 1..Len(Variables(x)) :
          LET v == Variables(x)[i]
          IN x[v[1]] = Open /\ x[v[2]] = Close /\ v[2] > v[1] + 1
             /\ \A j \in (v[1] + 1)..(v[2] - 1) : x[j] # Close
     /\ r.k = "ok" =>
          /\ Len(r.v.lits) = Len(r.v.subs) + 1
          /\ \A i \in 1..Len(r.v.subs) : r.v.subs[i].id # <<>> /\ LowerText(r.v.subs[i].id) = r.v.subs[i].id
          (* spaces around a part and letter case of the parts do not matter *)
          /\ up.k = "ok" => Len(up.v.subs) = Len(r.v.subs)
     /\ r.k = "err" => r.v \in {"WrongDependencyFormatError", "UnknownVerboseIdError"}
     (* no variable: the text stands for itself *)
     /\ Variables(x) = <<>> => r.k = "ok" /\ r.v.lits = <<x>>
=============================================================================
