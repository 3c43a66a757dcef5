----------------------------- MODULE Templates -----------------------------
(* Markup of templates: parsing, missing words, rendering.                  *)
(* A parsed template is [lits, subs]: n+1 literal texts around n variables. *)
(* A variable is [id, deps]; a dependency is [ext, n, p]: the name of an    *)
(* external, or a property set.                                             *)
EXTENDS Agreement, MarkupIds

Open == 91   Close == 93   Bar == 124   Comma == 44   Percent == 37

Ok(v) == [k |-> "ok", v |-> v]
Err(c, a) == [k |-> "err", v |-> c, a |-> a]

(* Spans <<from, to>> of the variables, left to right.                      *)
NextVariable(x, i) ==
  LET starts == {j \in i..Len(x) : x[j] = Open /\
                   \E e \in (j + 2)..Len(x) : x[e] = Close /\ x[j + 1] # Close}
  IN IF starts = {} THEN <<>>
     ELSE LET j == Min(starts) IN <<j, Min({e \in (j + 2)..Len(x) : x[e] = Close})>>

RECURSIVE VariablesFrom(_, _)
VariablesFrom(x, i) ==
  LET v == NextVariable(x, i)
  IN IF v = <<>> THEN <<>> ELSE <<v>> \o VariablesFrom(x, v[2] + 1)
Variables(x) == VariablesFrom(x, 1)

Literals(x, vs) ==
  TLCEval([i \in 1..(Len(vs) + 1) |->
     SubSeq(x, IF i = 1 THEN 1 ELSE vs[i - 1][2] + 1,
               IF i > Len(vs) THEN Len(x) ELSE vs[i][1] - 1)])

(* A comma separated list of identifiers: a property set or the first       *)
(* identifier that does not exist.                                          *)
ValueOf(id) ==
  LET hits == {<<k, v>> \in {<<k, v>> \in Kinds \X (1..10) : v <= NVals[k]} : MarkupId[k][v] = id}
  IN IF hits = {} THEN <<>> ELSE CHOOSE h \in hits : TRUE

ParseList(x) ==
  LET parts == TLCEval(Split(x, Comma))
      ids == SelectSeq([i \in 1..Len(parts) |-> Strip(parts[i])], LAMBDA s : s # <<>>)
      vals == TLCEval([i \in 1..Len(ids) |-> ValueOf(ids[i])])
      bad == {i \in 1..Len(ids) : vals[i] = <<>>}
  IN IF bad # {} THEN Err("UnknownVerboseIdError", ids[Min(bad)])
     ELSE Ok(MergeAll(NoProps, [i \in 1..Len(vals) |-> Props({vals[i]})]))

ExtDep(n) == [ext |-> TRUE, n |-> n, p |-> <<>>]
PropDep(p) == [ext |-> FALSE, n |-> <<>>, p |-> p]

(* body: the text between the brackets; exts: the set of external names.    *)
ParseVariable(body, exts) ==
  LET parts == TLCEval(Split(body, Bar))
      id == TLCEval(Strip(parts[1]))
      deps == TLCEval([i \in 1..(Len(parts) - 1) |->
                LET d == Strip(LowerText(parts[i + 1]))
                IN IF d \in exts THEN Ok(ExtDep(d))
                   ELSE LET q == ParseList(d)
                        IN IF q.k = "ok" THEN Ok(PropDep(q.v)) ELSE q])
      bad == {i \in 1..Len(deps) : deps[i].k # "ok"}
  IN IF id = <<>> THEN Err("WrongDependencyFormatError", <<Open>> \o body \o <<Close>>)
     ELSE IF bad # {} THEN deps[Min(bad)]
     ELSE Ok([id |-> LowerText(id),
              deps |-> [i \in 1..Len(deps) |-> deps[i].v]
                       \o (IF IsUpper(id[1]) THEN <<PropDep(Props({<<WORD_CASE, UPPER>>}))>>
                           ELSE <<>>)])

ParseTemplate(x, exts) ==
  LET vs == TLCEval(Variables(x))
      ps == TLCEval([i \in 1..Len(vs) |->
               ParseVariable(SubSeq(x, vs[i][1] + 1, vs[i][2] - 1), exts)])
      bad == {i \in 1..Len(ps) : ps[i].k # "ok"}
  IN IF bad # {} THEN ps[Min(bad)]
     ELSE Ok([lits |-> Literals(x, vs), subs |-> [i \in 1..Len(ps) |-> ps[i].v]])

(* The saved form of the literal texts: a format with %s for each variable. *)
Escape(x) == Concat([i \in 1..Len(x) |-> IF x[i] = Percent THEN <<37, 37>> ELSE <<x[i]>>])
FormatOf(tpl) ==
  Concat([i \in 1..Len(tpl.lits) |-> (IF i = 1 THEN <<>> ELSE <<37, 115>>) \o Escape(tpl.lits[i])])

(* ext: function from external names to [w, p, fp, x] (a word form with its *)
(* word and the text it shows); dic: function from texts to [w, p].         *)
Missing(tpl, extNames, known) ==
  SelectSeq([i \in 1..Len(tpl.subs) |-> tpl.subs[i].id],
            LAMBDA id : id \notin extNames /\ id \notin known)

AgreeAll(w, p, ms) == FoldLeft(LAMBDA acc, m : Agree(w, acc, m.w, m.x), p, ms)

RenderVariable(s, ext, dic) ==
  LET lost == {i \in 1..Len(s.deps) : s.deps[i].ext /\ s.deps[i].n \notin DOMAIN ext}
  IN IF s.id \notin DOMAIN ext /\ s.id \notin DOMAIN dic THEN Err("NoWordsFoundError", s.id)
     ELSE IF lost # {} THEN Err("ExternalDependecyNotFoundError", s.deps[Min(lost)].n)
     ELSE LET base == IF s.id \in DOMAIN ext THEN ext[s.id] ELSE dic[s.id]
              asked == [i \in 1..Len(s.deps) |->
                          IF s.deps[i].ext THEN ext[s.deps[i].n].p ELSE s.deps[i].p]
              masters == LET d == SelectSeq(s.deps, LAMBDA x : x.ext)
                         IN [i \in 1..Len(d) |-> ext[d[i].n]]
              p == TLCEval(Merge(MergeAll(base.p, TLCEval(asked)), base.w.p))
          IN Ok(Shown(base.w, TLCEval(AgreeAll(base.w, p, TLCEval(masters)))))

Render(tpl, ext, dic) ==
  LET rs == TLCEval([i \in 1..Len(tpl.subs) |-> RenderVariable(tpl.subs[i], ext, dic)])
      bad == {i \in 1..Len(rs) : rs[i].k # "ok"}
  IN IF bad # {} THEN rs[Min(bad)]
     ELSE Ok(Concat([i \in 1..Len(tpl.lits) |->
                       (IF i = 1 THEN <<>> ELSE rs[i - 1].v) \o tpl.lits[i]]))
=============================================================================
