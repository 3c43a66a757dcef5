--------------------------------- MODULE UTG ---------------------------------
(* The library as a state machine.  A session holds objects in numbered     *)
(* lists: words, word forms, dictionaries, templates and lexicons.  An      *)
(* event is one call; Do gives the state after it and the result it must    *)
(* have.  Only the operations listed in Mutators change anything.           *)
EXTENDS Templates, Dictionary, Lexicon, Migrations

NewSession == [words |-> <<>>, wfs |-> <<>>, dicts |-> <<>>, tpls |-> <<>>, lexes |-> <<>>]

Unparsed == [ok |-> FALSE, lits |-> <<>>, subs |-> <<>>]

(* Observations. *)
WordOf(s, i) == s.words[s.wfs[i].w]
FormText(s, i) == Shown(WordOf(s, i), s.wfs[i].fp)
SameWord(s, h) == Min({i \in 1..Len(s.words) : s.words[i] = s.words[h]})

Ids(exts) == ToSet(exts)
ExtNames(ev) == {ev.ext[i].n : i \in 1..Len(ev.ext)}
Externals(s, ev) ==
  TLCEval([n \in ExtNames(ev) |->
    LET i == ev.ext[CHOOSE j \in 1..Len(ev.ext) : ev.ext[j].n = n].i
    IN [w |-> WordOf(s, i), p |-> s.wfs[i].p, x |-> FormText(s, i)]])
Known(s, tpl, d) ==
  TLCEval([x \in {tpl.subs[i].id : i \in 1..Len(tpl.subs)} \cap DOMAIN s.dicts[d] |->
    [w |-> s.words[s.dicts[d][x].w], p |-> s.dicts[d][x].p]])

(* Saved documents: property sets are sequences of <<kind number, value     *)
(* number>> in the order of the kinds.                                      *)
Facts(p) == LET ks == SetToSortSeq({k \in Kinds : p[k] # 0}, <)
            IN TLCEval([i \in 1..Len(ks) |-> <<KindNum[ks[i]], ValNum[ks[i]][p[ks[i]]]>>])
ValueByNum(k, n) == LET vs == {v \in 1..NVals[k] : ValNum[k][v] = n}
                    IN IF vs = {} THEN 0 ELSE CHOOSE v \in vs : TRUE
FromFacts(f) ==
  TLCEval([k \in Kinds |->
    LET hits == {i \in 1..Len(f) : f[i][1] = KindNum[k]}
    IN IF hits = {} THEN 0 ELSE ValueByNum(k, f[CHOOSE i \in hits : TRUE][2])])
WordDoc(w) == [t |-> TypeNum[w.t], f |-> w.f, p |-> Facts(w.p)]
DepDoc(d) == [e |-> d.ext, n |-> d.n, f |-> IF d.ext THEN <<>> ELSE Facts(d.p)]
TemplateDoc(tpl) ==
  IF ~tpl.ok THEN [fmt |-> <<0>>, subs |-> <<>>]
  ELSE [fmt |-> FormatOf(tpl),
        subs |-> TLCEval([i \in 1..Len(tpl.subs) |->
                   [id |-> tpl.subs[i].id,
                    deps |-> TLCEval([j \in 1..Len(tpl.subs[i].deps) |-> DepDoc(tpl.subs[i].deps[j])])]])]
LoadedTemplate(doc) ==
  [ok |-> TRUE, lits |-> doc.lits,
   subs |-> TLCEval([i \in 1..Len(doc.subs) |->
     [id |-> doc.subs[i].id,
      deps |-> TLCEval([j \in 1..Len(doc.subs[i].deps) |->
                 LET d == doc.subs[i].deps[j]
                 IN IF d.e THEN ExtDep(d.n) ELSE PropDep(FromFacts(d.f))])]])]
TypeByNum(n) == CHOOSE t \in Types : TypeNum[t] = n

(* Arguments of Properties(...): <<>> is None, <<k, v>> a single property,  *)
(* a vector another property set.                                           *)
ItemProps(x) == IF x = <<>> THEN NoProps ELSE IF Len(x) = 2 THEN Props({<<x[1], x[2]>>}) ELSE x
Collect(p, items) == FoldLeft(LAMBDA acc, x : Merge(acc, ItemProps(x)), p, items)

Join(ts, sep) == FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN <<>> ELSE sep) \o ts[i],
                          <<>>, [i \in 1..Len(ts) |-> i])
PropsText(p) ==
  LET ks == SetToSortSeq({k \in Kinds : p[k] # 0}, <)
  IN <<40>> \o Join(TLCEval([i \in 1..Len(ks) |-> MarkupId[ks[i]][p[ks[i]]]]), <<Comma>>) \o <<41>>

(* A word for tests: every slot shows the identifiers of its key.           *)
LabelOf(t, i) ==
  LET key == Slots[t][i]
      js == SetToSortSeq({j \in DOMAIN key : key[j] # 0}, <)
  IN Join(TLCEval([n \in 1..Len(js) |-> MarkupId[Schema[t][js[n]]][key[js[n]]]]), <<Comma>>)
LabelledForms(t, pre, suf) == TLCEval([i \in 1..NSlots[t] |-> pre \o LabelOf(t, i) \o suf])

SortedSeq(xs) == SetToSortSeq(xs, <)

(* Tables that must never change. *)
RelationTable ==
  [kinds |-> TLCEval([k \in Kinds |-> [n |-> KindNum[k], vs |-> ValNum[k], ids |-> MarkupId[k]]]),
   types |-> TLCEval([t \in Types |-> [n |-> TypeNum[t], schema |-> Schema[t], own |-> OwnKinds[t]]]),
   defaults |-> TLCEval([k \in Kinds |-> Default(k)])]

-------------------------------------------------------------------------------
(* Each operation gives [s, r]: the next state and the required result.     *)
Out(s, r) == [s |-> s, r |-> r]
Same(s, v) == Out(s, Ok(v))
Add(s, list, x) == [s EXCEPT ![list] = Append(@, x)]

MkWord(s, t, f, p) ==
  IF Len(f) = NSlots[t] THEN Out(Add(s, "words", [t |-> t, f |-> f, p |-> p]), Ok(0))
  ELSE Out(s, Err("WrongFormsNumberError", <<Len(f), NSlots[t]>>))

ParseInto(s, i, ev) ==
  LET r == TLCEval(ParseTemplate(ev.x, Ids(ev.exts)))
  IN IF r.k = "ok"
     THEN Out([s EXCEPT !.tpls[i] = [ok |-> TRUE, lits |-> r.v.lits, subs |-> r.v.subs]], Ok(0))
     ELSE Out(s, r)

IntegerView(w) == [x |-> w.f[1], p |-> w.p, t |-> w.t, f |-> w.f, wp |-> w.p]

EntryView(s, d, x) ==
  LET e == s.dicts[d][x] IN [x |-> x, w |-> SameWord(s, e.w), p |-> e.p, fp |-> e.p]

WordView(w) == [t |-> w.t, f |-> w.f, p |-> w.p, syl |-> Syllables(w), flu |-> FluentVowel(w)]

Comparison(e) == [eq |-> e, ne |-> ~e]

Choice(s, l, key, r, vs) ==
  LET e == ChoiceError(s.lexes[l], key, r)
  IN IF e # "" THEN Out(s, Err(e, key)) ELSE Same(s, SortedSeq(vs))

DoWord(s, ev) ==
  CASE ev.op = "word" -> MkWord(s, ev.t, ev.f, IF ev.p = <<>> THEN NoProps ELSE ev.p)
    [] ev.op = "form" -> Same(s, Inflect(s.words[ev.w], ev.p))
    [] ev.op = "normal" -> Same(s, NormalForm(s.words[ev.w]))
    [] ev.op = "allforms" -> Same(s, LET a == AllForms(s.words[ev.w])
                                     IN [i \in 1..Len(a) |-> [x |-> a[i].x, p |-> a[i].p, fp |-> a[i].p]])
    [] ev.op = "attrs" -> Same(s, WordView(s.words[ev.w]))
    [] ev.op = "syllables" -> Same(s, Syllables(s.words[ev.w]))
    [] ev.op = "fluent" -> Same(s, FluentVowel(s.words[ev.w]))
    [] ev.op = "autofill" -> LET w == TLCEval(Filled(s.words[ev.w]))
                             IN Out([s EXCEPT !.words[ev.w] = w], Ok(w.f))
    [] ev.op = "wf" -> Out(Add(s, "wfs", LET m == MkForm(s.words[ev.w], ev.p, ev.fp)
                                         IN [w |-> ev.w, p |-> m.p, fp |-> m.fp]), Ok(0))
    [] ev.op = "peekwf" -> Same(s, LET x == FormText(s, ev.i)
                                   IN [x |-> x, p |-> s.wfs[ev.i].p, fp |-> s.wfs[ev.i].fp,
                                       cl |-> Cluster(x)])
    [] ev.op = "int" -> LET w == TLCEval(IntegerWord(ev.n))
                        IN Out([Add(s, "words", w) EXCEPT !.wfs =
                                  Append(@, [w |-> Len(s.words) + 1, p |-> w.p, fp |-> w.p])],
                               Ok(IntegerView(w)))
    [] ev.op = "intq" -> Same(s, IntegerView(IntegerWord(ev.n)))
    [] ev.op = "transform" ->
         Same(s, Agree(s.words[ev.w], ev.p, WordOf(s, ev.i), FormText(s, ev.i)))

DoProps(s, ev) ==
  CASE ev.op = "props" -> LET a == Collect(NoProps, ev.a)
                              b == Collect(a, ev.b)
                          IN Same(s, [p |-> a, q |-> b, after |-> a, str |-> PropsText(b),
                                      dist |-> Distance(b),
                                      get |-> TLCEval([k \in Kinds |-> Get(b, k)])])
    [] ev.op = "peq" -> Same(s, Comparison(Collect(NoProps, ev.a) = Collect(NoProps, ev.b)))
    [] ev.op = "rtp" -> LET a == Collect(NoProps, ev.a)
                        IN Same(s, [doc |-> Facts(a), p |-> a, eq |-> TRUE, same |-> TRUE])
    [] ev.op = "loadp" -> Same(s, FromFacts(ev.f))

DoSaved(s, ev) ==
  CASE ev.op = "rtw" -> LET w == s.words[ev.w]
                        IN Out(Add(s, "words", w), Ok([doc |-> WordDoc(w), eq |-> TRUE, same |-> TRUE]))
    [] ev.op = "loadw" -> MkWord(s, TypeByNum(ev.t), ev.f, FromFacts(ev.p))
    [] ev.op = "rtt" -> Out(Add(s, "tpls", s.tpls[ev.i]),
                            Ok([doc |-> TemplateDoc(s.tpls[ev.i]), eq |-> TRUE, same |-> TRUE]))
    [] ev.op = "sert" -> Same(s, TemplateDoc(s.tpls[ev.i]))
    [] ev.op = "loadt" -> Out(Add(s, "tpls", LoadedTemplate(ev.doc)), Ok(0))

DoDict(s, ev) ==
  CASE ev.op = "dict" -> Out(Add(s, "dicts", RegisterAll(s.words, EmptyDict, ev.ws)), Ok(0))
    [] ev.op = "add" -> Out([s EXCEPT !.dicts[ev.d] = Register(s.words, @, ev.w)], Ok(0))
    [] ev.op = "has" -> Same(s, ev.x \in DOMAIN s.dicts[ev.d])
    [] ev.op = "get" -> IF ev.x \in DOMAIN s.dicts[ev.d]
                        THEN LET e == s.dicts[ev.d][ev.x]
                             IN Out(IF ev.keep THEN Add(s, "wfs", [w |-> e.w, p |-> e.p, fp |-> e.p]) ELSE s,
                                    Ok(EntryView(s, ev.d, ev.x)))
                        ELSE Out(s, Err("NoWordsFoundError", ev.x))
    [] ev.op = "probe" -> Same(s, [i \in 1..Len(ev.xs) |->
                            IF ev.xs[i] \in DOMAIN s.dicts[ev.d]
                            THEN <<EntryView(s, ev.d, ev.xs[i])>> ELSE <<>>])
    [] ev.op = "getwords" -> LET o == TLCEval({SameWord(s, h) : h \in Owners(s.dicts[ev.d])})
                             IN Same(s, [n |-> Cardinality(o), ws |-> SortedSeq(o)])

DoTemplate(s, ev) ==
  CASE ev.op = "tpl" -> ParseInto(Add(s, "tpls", Unparsed), Len(s.tpls) + 1, ev)
    [] ev.op = "parse" -> ParseInto(s, ev.i, ev)
    [] ev.op = "undict" -> Same(s, Missing(s.tpls[ev.i], ExtNames(ev), DOMAIN s.dicts[ev.d]))
    [] ev.op = "tryrender" -> IF s.tpls[ev.i].ok
                              THEN Out(s, Render(s.tpls[ev.i], Externals(s, ev), Known(s, s.tpls[ev.i], ev.d)))
                              ELSE Same(s, <<>>)
    [] ev.op = "render" -> Out(s, Render(s.tpls[ev.i], Externals(s, ev), Known(s, s.tpls[ev.i], ev.d)))

DoEqual(s, ev) ==
  CASE ev.op = "weq" -> Same(s, Comparison(s.words[ev.a] = s.words[ev.b]))
    [] ev.op = "wfeq" -> Same(s, Comparison(/\ WordOf(s, ev.a) = WordOf(s, ev.b)
                                            /\ s.wfs[ev.a].p = s.wfs[ev.b].p))
    [] ev.op = "teq" -> Same(s, Comparison(TemplateDoc(s.tpls[ev.a]) = TemplateDoc(s.tpls[ev.b])))
    [] ev.op = "foreign" -> Same(s, TRUE)

DoLexicon(s, ev) ==
  LET r == ToSet(ev.r) IN
  CASE ev.op = "lex" -> Out(Add(s, "lexes", EmptyLexicon), Ok(0))
    [] ev.op = "ladd" -> Out([s EXCEPT !.lexes[ev.l] = AddTo(@, ev.key, ev.t, r)], Ok(0))
    [] ev.op = "lhas" -> Same(s, ev.key \in DOMAIN s.lexes[ev.l])
    [] ev.op = "lget" -> Same(s, EligibleTemplates(s.lexes[ev.l], ev.key, r))
    [] ev.op = "lrand" -> Choice(s, ev.l, ev.key, r, ToSet(EligibleTemplates(s.lexes[ev.l], ev.key, r)))
    [] ev.op = "lnear" -> Choice(s, ev.l, ev.key, r, Nearest(s.lexes[ev.l], ev.key, r))

SnapView(s) ==
  [words |-> TLCEval([i \in 1..Len(s.words) |-> WordView(s.words[i])]),
   wfs |-> TLCEval([i \in 1..Len(s.wfs) |-> [p |-> s.wfs[i].p, fp |-> s.wfs[i].fp, x |-> FormText(s, i)]]),
   tpls |-> TLCEval([i \in 1..Len(s.tpls) |-> TemplateDoc(s.tpls[i])])]

DoTables(s, ev) ==
  CASE ev.op = "reset" -> Out(NewSession, Ok(0))
    [] ev.op = "snap" -> Same(s, SnapView(s))
    [] ev.op = "layout" -> Same(s, [n |-> NSlots[ev.t], keys |-> Slots[ev.t], wc |-> Slots[ev.t],
                                    inv |-> Slots[ev.t]])
    [] ev.op = "testword" -> Same(s, [t |-> ev.t, f |-> LabelledForms(ev.t, ev.pre, ev.suf), p |-> ev.p])
    [] ev.op = "relations" -> Same(s, RelationTable)
    [] ev.op \in {"migrate", "chain"} -> Same(s, 0)

(* Questions asked at once (in threads, or in the midst of each other):     *)
(* questions change nothing, so each has the answer it has alone.           *)
AnswerTo(s, ev) ==
  CASE ev.op \in {"form", "attrs", "peekwf", "intq", "transform"} -> DoWord(s, ev).r
    [] ev.op = "sert" -> DoSaved(s, ev).r
    [] ev.op \in {"has", "get"} -> DoDict(s, ev).r
    [] ev.op \in {"undict", "render"} -> DoTemplate(s, ev).r
    [] ev.op = "lget" -> DoLexicon(s, ev).r
Among(s, ev) == [alone |-> TLCEval([i \in 1..Len(ev.qs) |-> AnswerTo(s, ev.qs[i])]), same |-> TRUE]

WordOps == {"word", "form", "normal", "allforms", "attrs", "syllables", "fluent", "autofill", "wf",
            "peekwf", "int", "intq", "transform"}
PropsOps == {"props", "peq", "rtp", "loadp"}
SavedOps == {"rtw", "loadw", "rtt", "sert", "loadt"}
DictOps == {"dict", "add", "has", "get", "probe", "getwords"}
TemplateOps == {"tpl", "parse", "undict", "render", "tryrender"}
EqualOps == {"weq", "wfeq", "teq", "foreign"}
LexiconOps == {"lex", "ladd", "lhas", "lget", "lrand", "lnear"}
Mutators == {"reset", "word", "autofill", "wf", "int", "rtw", "loadw", "rtt", "loadt", "dict", "add",
             "tpl", "parse", "lex", "ladd", "get"}

Do(s, ev) ==
  CASE ev.op \in WordOps -> DoWord(s, ev)
    [] ev.op \in PropsOps -> DoProps(s, ev)
    [] ev.op \in SavedOps -> DoSaved(s, ev)
    [] ev.op \in DictOps -> DoDict(s, ev)
    [] ev.op \in TemplateOps -> DoTemplate(s, ev)
    [] ev.op \in EqualOps -> DoEqual(s, ev)
    [] ev.op \in LexiconOps -> DoLexicon(s, ev)
    [] ev.op = "among" -> Same(s, Among(s, ev))
    (* nobody refers to the objects made so far any more *)
    [] ev.op = "forget" -> Same(s, 0)
    [] OTHER -> DoTables(s, ev)
=============================================================================
