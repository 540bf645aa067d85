----------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Validation of recorded histories of real connections against Session.   *)
(* Every history is one behaviour: TLC starts in one initial state per     *)
(* history and takes one step per recorded call; the verdict of a history  *)
(* is "ok" or the number of the first call the specification does not      *)
(* allow, with the name of the violated clause.                            *)
(***************************************************************************)
EXTENDS Settings, Json, IOUtils, TLC

\* [h |-> histories, ignore |-> clauses that are another check's business]
Trace == JsonDeserialize(IOEnv.TRACE)
Histories == Trace.h
Ignored == {Trace.ignore[i] : i \in 1..Len(Trace.ignore)}

VARIABLES tid, l, sess, verdict
vars == <<tid, l, sess, verdict>>

Ev == Histories[tid].ev[l]

FieldsAgree(want, got) ==
  \A i \in 1..Len(want) : \E j \in 1..Len(got) : got[j] = want[i]

\* Result of a step: [v |-> verdict, s |-> session after it].
R(v, s) == [v |-> v, s |-> s]

StepNew(e) ==
  LET v == SettingsVerdict(e.cfg, e.pw, e.pid)
      made == e.out.k = "ok" IN
  R(CASE v = "good" -> IF made THEN "ok" ELSE "new-rejected-good-config"
      [] v = "bad"  -> IF RaisedSomething(e.out) THEN "ok" ELSE "new-accepted-bad-config"
      [] v = "free" -> IF made \/ RaisedSomething(e.out) THEN "ok" ELSE "new-hangs",
    NewSession(e.cfg))

StepSend(s, e) ==
  LET o == e.out IN
  \* whatever becomes of it, the request object is the caller's
  IF e.touched # <<>> THEN R("request-changed", s)
  ELSE IF SendRefused(s, e.req)
  \* something that is no request at all may fail in any way
  THEN R(IF Raised(o, "LocalElgasProtocolError") \/ (e.req.k \notin RequestKinds /\ RaisedSomething(o))
         THEN "ok" ELSE "send-not-refused", s)
  ELSE IF SendFails(s, e.req)
  THEN R(IF RaisedSomething(o) THEN "ok" ELSE "send-of-unencodable-request", s)
  ELSE R(IF o.k # "bytes" THEN "send-failed" ELSE WireVerdict(s, e.req, o.d), AfterSend(s, e.req))

\* The addresses and the key of a living connection are changed; what is
\* awaited and what was received stays.
StepSet(s, e) == R(IF e.out.k = "ok" THEN "ok" ELSE "set-failed", [s EXCEPT !.cfg = e.cfg])

StepRecv(s, e) == R(IF e.out.k = "ok" THEN "ok" ELSE "receive-failed", AfterReceive(s, e.d))

StepNext(s, e) ==
  LET w == TLCEval(NextEvent(s))
      o == e.out IN
  CASE w.k = "need"     -> R(IF o.k = "need" THEN "ok" ELSE "event-out-of-nothing", w.s)
    [] w.k = "free"     -> R("free", w.s)
    [] w.k = "bad"      -> R(IF RaisedSomething(o) THEN "ok" ELSE "undecodable-response", w.s)
    [] w.k = "protocol" -> R(IF Raised(o, w.name) THEN "ok" ELSE "unawaited-response", w.s)
    [] w.k = "error"    -> R(IF Raised(o, w.name) THEN "ok" ELSE "device-error-" \o w.name, w.s)
    [] w.k = "pdu"      ->
         R(IF o.k = "need" THEN "response-not-delivered"
           ELSE IF o.k # "pdu" THEN "response-raised"
           ELSE IF o.svc # w.svc THEN "response-class"
           ELSE IF ~FieldsAgree(w.f, o.f) THEN "response-fields"
           ELSE "ok", w.s)

\* What was delivered stays what it was.
StepLater(s, e) == R(IF e.changed = <<>> THEN "ok" ELSE "delivered-value-changed", s)

Step(s, e) == CASE e.op = "send" -> StepSend(s, e)
                [] e.op = "recv" -> StepRecv(s, e)
                [] e.op = "next" -> StepNext(s, e)
                [] e.op = "set" -> StepSet(s, e)

Init == /\ tid \in 1..Len(Histories)
        /\ l = 1
        /\ sess = <<>>
        /\ verdict = "ok"

Finish(v, n) == PrintT(<<"VERDICT", tid, n, v>>)

Next ==
  /\ verdict = "ok"
  /\ IF l > Len(Histories[tid].ev)
     THEN /\ verdict' = "done"
          /\ Finish("ok", l - 1)
          /\ UNCHANGED <<tid, l, sess>>
     ELSE LET e == Ev
              x == TLCEval(IF e.op = "new" THEN StepNew(e) ELSE IF e.op = "later" THEN StepLater(sess[e.c], e)
                         ELSE Step(sess[e.c], e))
              r == IF x.v \in Ignored THEN [x EXCEPT !.v = "ok"] ELSE x IN
          /\ verdict' = r.v
          /\ sess' = IF e.op = "new" THEN Append(sess, r.s) ELSE [sess EXCEPT ![e.c] = r.s]
          /\ l' = l + 1
          /\ UNCHANGED tid
          /\ (r.v # "ok" => Finish(r.v, l))

Spec == Init /\ [][Next]_vars
=============================================================================
