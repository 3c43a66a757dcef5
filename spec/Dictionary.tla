----------------------------- MODULE Dictionary -----------------------------
(* A dictionary maps texts to entries [w, p]: the number of a word in the   *)
(* list ws of all words, and the properties of its form that reads so.      *)
EXTENDS Words

EmptyDict == [x \in {} |-> 0]

(* Rank of an entry: smaller wins.                                          *)
Beats(ws, a, b) ==
  LET v == ws[a.w]
      u == ws[b.w]
  IN IF TypeNum[v.t] # TypeNum[u.t] THEN TypeNum[v.t] < TypeNum[u.t]
     ELSE IF v.f # u.f THEN TextsLess(v.f, u.f)
     ELSE Distance(a.p) < Distance(b.p)

(* The entries that word h offers: for each of its texts the form with the  *)
(* fewest non-default properties, the earliest slot among those.            *)
Offers(ws, h) ==
  LET af == TLCEval(AllForms(ws[h]))
      ds == TLCEval([s \in 1..Len(af) |-> Distance(af[s].p)])
      texts == {af[s].x : s \in 1..Len(af)}
  IN TLCEval([x \in texts |->
       LET ss == {s \in 1..Len(af) : af[s].x = x}
           d == Min({ds[s] : s \in ss})
           best == Min({s \in ss : ds[s] = d})
       IN [w |-> h, p |-> af[best].p]])

Register(ws, dic, h) ==
  LET o == TLCEval(Offers(ws, h))
  IN TLCEval([x \in DOMAIN dic \cup DOMAIN o |->
       IF x \notin DOMAIN dic THEN o[x]
       ELSE IF x \notin DOMAIN o THEN dic[x]
       ELSE IF Beats(ws, o[x], dic[x]) THEN o[x] ELSE dic[x]])

RegisterAll(ws, dic, hs) == FoldLeft(LAMBDA acc, h : Register(ws, acc, h), dic, hs)

Owners(dic) == {dic[x].w : x \in DOMAIN dic}
=============================================================================
