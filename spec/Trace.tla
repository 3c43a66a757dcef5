-------------------------------- MODULE Trace --------------------------------
(* Replays a recorded run of the real library against the specification:    *)
(* every event carries the result the code gave; each disagreement is       *)
(* printed, and the specification goes on from its own state.               *)
EXTENDS UTG, Json, IOUtils

VARIABLES pos, sys

Log == ndJsonDeserialize(IOEnv.UTG_TRACE)

(* Differences of two results, as a sequence of field names.                *)
Fields == <<"p", "q", "after", "str", "dist", "get", "doc", "eq", "ne", "same", "t", "f", "syl", "flu", "x", "w",
            "fp", "cl", "wp", "n", "ws", "keys", "wc", "inv", "kinds", "types", "defaults", "words", "wfs", "tpls">>
Records == {"attrs", "peekwf", "int", "intq", "props", "peq", "rtp", "rtw", "rtt", "get", "getwords", "weq",
            "wfeq", "teq", "layout", "relations", "snap", "testword"}
(* An inner function that has another shape now cannot be observed itself.  *)
Differ(want, got, op) ==
  IF got.k = "skip" THEN IF op = "transform" THEN <<>> ELSE <<"k">>
  ELSE IF want.k # got.k THEN <<"k">>
  ELSE IF want.k = "err"
       THEN IF want.v # got.v THEN <<"class">> ELSE IF want.a # got.a THEN <<"arg">> ELSE <<>>
  ELSE IF op = "among" THEN IF got.v.same THEN <<>> ELSE <<"same">>
  ELSE IF op \in Records
       THEN SelectSeq(Fields, LAMBDA n : n \in DOMAIN want.v /\ want.v[n] # got.v[n])
  ELSE IF want.v # got.v THEN <<"v">> ELSE <<>>

(* What equality alone does not say. *)
Extra(s, ev, got) ==
  IF got.k # "ok" THEN <<>>
  ELSE IF ev.op \in {"peq", "weq", "wfeq"} THEN IF got.v.eq /\ ~got.v.hq THEN <<"hash">> ELSE <<>>
  ELSE IF ev.op = "among"
       THEN LET w == Among(s, ev).alone
            IN IF \E i \in 1..Len(w) : Differ(w[i], got.v.alone[i], ev.qs[i].op) # <<>> THEN <<"alone">> ELSE <<>>
  ELSE IF ev.op = "snap" /\ ~got.v.args THEN <<"args">>
  ELSE <<>>

AutofillOk(w, got) ==
  /\ got.k = "ok"
  /\ Len(got.v) = Len(w.f)
  /\ \A i \in 1..Len(w.f) : got.v[i] \in Fillings(w, i)

Judge(ev) ==
  CASE ev.op = "autofill" ->
         LET w == sys.words[ev.w]
             good == AutofillOk(w, ev.res)
             after == IF good THEN [w EXCEPT !.f = ev.res.v] ELSE Filled(w)
         IN [s |-> [sys EXCEPT !.words[ev.w] = after],
             bad |-> IF good THEN <<>> ELSE IF ev.res.k = "ok" THEN <<"v">> ELSE <<"k">>,
             want |-> Ok(after.f)]
    [] ev.op = "migrate" ->
         [s |-> sys,
          bad |-> IF ev.res.k # "ok" THEN <<"k">>
                  ELSE IF MigratedOk(ev.m, ev.doc, ev.res.v) THEN <<>> ELSE <<"v">>,
          want |-> Ok(0)]
    [] ev.op = "chain" ->
         [s |-> sys,
          bad |-> IF ev.res.k # "ok" THEN <<"k">>
                  ELSE IF ChainOk(ev.m, ev.doc, ev.res.v) /\ ev.res.v.p = FromFacts(ChainProps(ev.m, ev.doc)) THEN <<>> ELSE <<"v">>,
          want |-> Ok(0)]
    [] OTHER ->
         LET o == TLCEval(Do(sys, ev))
         IN [s |-> o.s, bad |-> Differ(o.r, ev.res, ev.op) \o Extra(sys, ev, ev.res), want |-> o.r]

Init == pos = 1 /\ sys = NewSession
Next ==
  /\ pos <= Len(Log)
  /\ \E j \in {TLCEval(Judge(Log[pos]))} :
        /\ IF j.bad = <<>> THEN TRUE
           ELSE PrintT("FAIL " \o ToJson([n |-> pos, bad |-> j.bad, want |-> j.want]))
        /\ sys' = j.s
        /\ pos' = pos + 1
        /\ IF pos = Len(Log) THEN PrintT("DONE " \o ToString(pos)) ELSE TRUE
=============================================================================
