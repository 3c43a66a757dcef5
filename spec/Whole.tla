-------------------------------- MODULE Whole --------------------------------
(* The whole library in small: histories of calls over all its objects,     *)
(* everything being asked after every call.                                 *)
EXTENDS Explore, IOUtils

A == 1072   T == 1090
Numbers(n) == [neg |-> FALSE, d |-> <<n>>]
Key == <<1082>>
WholePrelude == <<
  [op |-> "word", t |-> NOUN, p |-> Props({<<GENDER, 3>>}),
   f |-> [i \in 1..18 |-> IF i = 2 THEN <<V, T, A>> ELSE IF i < 12 THEN <<T, 47 + i>> ELSE <<T, A>>]],
  [op |-> "word", t |-> PREPOSITION, p |-> <<>>, f |-> <<<<V>>, <<V, 1086>>, <<V, 49>>>>],
  [op |-> "word", t |-> PREPOSITION, p |-> <<>>, f |-> <<<<>>, <<V, A>>, <<>>>>],
  [op |-> "word", t |-> VERB, p |-> Props({<<ASPECT, 2>>}), f |-> [i \in 1..20 |-> <<V, 64 + i>>]],
  [op |-> "wf", w |-> 1, p |-> Props({<<GCASE, 2>>}), fp |-> <<>>],
  [op |-> "int", n |-> Numbers(2)],
  [op |-> "dict", ws |-> <<2, 4>>],
  [op |-> "dict", ws |-> <<>>],
  (* "[v|h] [h|n] [h|n|dt,mn]" *)
  [op |-> "tpl", x |-> <<91, V, 124, 104, 93, 32, 91, 104, 124, 110, 93, 37, 91, 104, 124, 110, 124, 1076, 1090, 44, 1084, 1085, 93>>,
   exts |-> <<<<104>>, <<110>>>>],
  (* "[V|h]" with a capital letter *)
  [op |-> "tpl", x |-> <<91, 1042, 124, 104, 93>>, exts |-> <<<<104>>>>],
  [op |-> "lex", l |-> 0, key |-> <<>>, r |-> <<>>, dflt |-> FALSE] >>

Long == "UTG_LONG" \in DOMAIN IOEnv /\ IOEnv.UTG_LONG = "1"
WholeDepth == IF Long THEN 3 ELSE 2
WholeMenu(s) ==
  { [op |-> "word", t |-> TEXT, p |-> <<>>, f |-> <<<<V>>>>],
    [op |-> "wf", w |-> 1, p |-> Props({<<NUMBER, 2>>}), fp |-> Props({<<WORD_CASE, UPPER>>})],
    [op |-> "wf", w |-> 1, p |-> Props({<<GCASE, 2>>}), fp |-> <<>>],
    [op |-> "int", n |-> Numbers(2)],
    [op |-> "int", n |-> Numbers(1)],
    [op |-> "add", d |-> 1, w |-> 1],
    [op |-> "add", d |-> 2, w |-> 2],
    [op |-> "dict", ws |-> <<1, 2>>],
    [op |-> "parse", i |-> 1, x |-> <<91, V, 93>>, exts |-> <<>>],
    [op |-> "parse", i |-> 1, x |-> <<91, V, 124, V, 93>>, exts |-> <<>>],
    [op |-> "parse", i |-> 2, x |-> <<91, 104, 124, 104, 93>>, exts |-> <<<<104>>>>],
    [l |-> 1, op |-> "ladd", key |-> Key, r |-> <<1>>, dflt |-> FALSE, t |-> 1],
    [l |-> 1, op |-> "ladd", key |-> Key, r |-> <<>>, dflt |-> FALSE, t |-> 2],
    [op |-> "autofill", w |-> 3],
    [op |-> "rtw", w |-> 1],
    [op |-> "rtt", i |-> 1],
    [op |-> "get", d |-> 1, x |-> <<V>>, keep |-> TRUE] }

Hero == << [n |-> <<104>>, i |-> 1], [n |-> <<110>>, i |-> 2] >>
Ask(o, f) == [op |-> o] @@ f
Latest(s, list) == Len(s[list])
WholeWatch(s, ev) ==
  << [op |-> "render", i |-> 1, d |-> 1, ext |-> Hero],
     [op |-> "render", i |-> 2, d |-> 1, ext |-> Hero],
     [op |-> "render", i |-> Latest(s, "tpls"), d |-> 2, ext |-> <<Hero[1]>>],
     [op |-> "undict", i |-> 1, d |-> 2, ext |-> <<>>],
     [op |-> "form", w |-> 1, p |-> Props({<<GCASE, 3>>})],
     [op |-> "normal", w |-> Latest(s, "words")],
     [op |-> "attrs", w |-> 3],
     [op |-> "peekwf", i |-> Latest(s, "wfs"), first |-> TRUE],
     [op |-> "peekwf", i |-> 1, first |-> FALSE],
     [op |-> "intq", n |-> Numbers(2)],
     [op |-> "transform", w |-> 2, p |-> NoProps, i |-> 1],
     [op |-> "transform", w |-> 1, p |-> Props({<<GCASE, 1>>}), i |-> 2],
     [op |-> "probe", d |-> 1, xs |-> << <<V>>, <<V, T, A>>, <<T, A>>, <<V, A>> >>],
     [op |-> "probe", d |-> 2, xs |-> << <<V>>, <<V, 1086>> >>],
     [op |-> "getwords", d |-> 1],
     [op |-> "weq", a |-> 1, b |-> Latest(s, "words")],
     [op |-> "wfeq", a |-> 1, b |-> Latest(s, "wfs")],
     [op |-> "wfeq", a |-> 2, b |-> Latest(s, "wfs")],
     [op |-> "teq", a |-> 1, b |-> Latest(s, "tpls")],
     [l |-> 1, op |-> "lget", key |-> Key, r |-> <<1>>, dflt |-> FALSE],
     [l |-> 1, op |-> "lnear", key |-> Key, r |-> <<1>>, dflt |-> FALSE],
     [l |-> 1, op |-> "lrand", key |-> Key, r |-> <<>>, dflt |-> FALSE],
     [op |-> "render", i |-> 1, d |-> 1, ext |-> Hero],
     [op |-> "snap"] >>

(* Values that exist stay what they are unless a call names them.           *)
Grows(old, new, but) == Len(new) >= Len(old) /\ \A i \in 1..Len(old) : i \in but \/ new[i] = old[i]
Frame ==
  [][LET ev == hist'[Len(hist')].e IN
     /\ Grows(sys.words, sys'.words, IF ev.op = "autofill" THEN {ev.w} ELSE {})
     /\ Grows(sys.wfs, sys'.wfs, {})
     /\ Grows(sys.dicts, sys'.dicts, IF ev.op = "add" THEN {ev.d} ELSE {})
     /\ Grows(sys.tpls, sys'.tpls, IF ev.op = "parse" THEN {ev.i} ELSE {})
     /\ Grows(sys.lexes, sys'.lexes, IF ev.op = "ladd" THEN {ev.l} ELSE {})]_<<sys, hist>>
=============================================================================
