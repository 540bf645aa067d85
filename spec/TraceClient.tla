------------------------------ MODULE TraceClient ----------------------------
(***************************************************************************)
(* Validation of recorded histories of real clients against Client.  One   *)
(* step per interaction of the client with its user or its transport:      *)
(*                                                                         *)
(* [op |-> "new", c, cfg, pw, pid, n, out]                                *)
(* [op |-> "call", c, call]         the user makes a call                  *)
(* [op |-> "ask", c, call] / [op |-> "await", c]  or one half of an exchange*)
(* [op |-> "w", c, d, out]          bytes handed to the transport          *)
(* [op |-> "r", c, out]             bytes asked from the transport         *)
(* [op |-> "connect" / "disconnect", c, n, tr, out]                        *)
(*      n: calls of the transport it took, tr: how the (last) one ended    *)
(*      strange: links opened on the way to other endpoints than its own   *)
(* [op |-> "end", c, out]           the call returned or raised            *)
(* [op |-> "set", c, cfg, pw, out]  addresses and password are changed     *)
(***************************************************************************)
EXTENDS Client, Settings, Json, IOUtils, TLC

Trace == JsonDeserialize(IOEnv.TRACE)
Histories == Trace.h
Ignored == {Trace.ignore[i] : i \in 1..Len(Trace.ignore)}

VARIABLES tid, l, cs, verdict
vars == <<tid, l, cs, verdict>>

R(v, c) == [v |-> v, c |-> c]
B(cond, clause) == IF cond THEN "ok" ELSE clause
FieldsAgree(want, got) == \A i \in 1..Len(want) : \E j \in 1..Len(got) : got[j] = want[i]

\* Making a client does nothing to its transport.
StepNew(e) ==
  LET v == SettingsVerdict(e.cfg, e.pw, e.pid)
      made == e.out.k = "ok" IN
  R(IF e.n # 0 THEN "new-transport-use"
    ELSE CASE v = "good" -> B(made, "new-rejected-good-config")
           [] v = "bad"  -> B(RaisedSomething(e.out), "new-accepted-bad-config")
           [] v = "free" -> B(made \/ RaisedSomething(e.out), "new-hangs"),
    NewClient(e.cfg, e.pw))

StepCall(c, e) == R("ok", Begin(c, e.call))
StepAsk(c, e) == R("ok", BeginAsk(c, e.call))
StepAwait(c, e) == R("ok", BeginAwait(c))

StepWrite(c, e) ==
  IF c.ph # "write" THEN R(IF c.ph = "done" THEN "writes-too-much" ELSE "writes-instead-of-reading", c)
  ELSE LET v == WireVerdict(c.s, c.req, e.d) IN
       R(v, IF e.out.k = "ok" THEN Wrote(c) ELSE LinkFailed(c, Kind(e.out)))

StepRead(c, e) ==
  IF c.ph # "read" THEN R(IF c.ph = "done" THEN "reads-past-the-response" ELSE "reads-before-writing", c)
  ELSE R("ok", IF e.out.k = "bytes" THEN Got(c, e.out.d) ELSE LinkFailed(c, Kind(e.out)))

ValueAgrees(c, o) ==
  CASE c.half = "await" -> o.k = "pdu" /\ o.svc = c.want.svc /\ FieldsAgree(c.want.f, o.f)
    [] c.req.k = "time"  -> o.k = "time" /\ o.tm = FieldNamed(c.want.f, "time")
    [] c.req.k = "write" -> o.k = "none"
    [] OTHER -> o.k = "pdu" /\ o.svc = SvcOf(c.req.k) /\ FieldsAgree(c.want.f, o.f)

ObjectsVerdict(want, o) ==
  IF o.k # "objs" THEN "readout-failed"
  ELSE IF Len(o.o) # Len(want) THEN "readout-object-count"
  ELSE B(\A i \in 1..Len(want) : o.o[i].cls = want[i].cls /\ AllAgree(want[i].f, o.o[i].f), "readout-objects")

StepEnd(c, e) ==
  LET o == e.out
      w == c.want IN
  R(IF c.ph # "done" THEN IF o.k = "hang" THEN "hangs" ELSE "ends-before-the-response"
    ELSE CASE w.k = "free"  -> "free"
           [] w.k = "err"   -> IF w.names = {} THEN B(RaisedSomething(o), "no-error")
                               ELSE B(\E n \in w.names : Raised(o, n), "error-" \o (CHOOSE n \in w.names : TRUE))
           [] w.k = "none"  -> B(o.k = "none", "ask-result")
           [] w.k = "value" -> B(ValueAgrees(c, o), "returned-value")
           [] w.k = "objs"  -> ObjectsVerdict(w.o, o),
    Ended(c))

\* connect and disconnect are one call of the transport each; connecting
\* begins a new session.
StepConnect(c, e) ==
  R(IF e.n # 1 THEN "connect-transport-use"
    ELSE IF e.strange # 0 THEN "connect-endpoint"
    ELSE IF e.tr.k = "ok" THEN B(e.out.k = "ok", "connect-failed")
    ELSE B(Raised(e.out, Kind(e.tr)), "connect-error"),
    IF e.tr.k = "ok" THEN Connected(c) ELSE c)
StepDisconnect(c, e) ==
  R(IF e.n # 1 THEN "disconnect-transport-use"
    ELSE IF e.tr.k = "ok" THEN B(e.out.k = "ok", "disconnect-failed")
    ELSE B(Raised(e.out, Kind(e.tr)), "disconnect-error"), c)

\* Other addresses for the connection, another password for the client.
StepSet(c, e) == R(B(e.out.k = "ok", "set-failed"), [c EXCEPT !.s.cfg = e.cfg, !.pw = e.pw])

\* What was returned stays what it was.
StepLater(c, e) == R(B(e.changed = <<>>, "returned-value-changed"), c)

Step(c, e) == CASE e.op = "call" -> StepCall(c, e)
                [] e.op = "ask" -> StepAsk(c, e)
                [] e.op = "await" -> StepAwait(c, e)
                [] e.op = "w" -> StepWrite(c, e)
                [] e.op = "r" -> StepRead(c, e)
                [] e.op = "end" -> StepEnd(c, e)
                [] e.op = "set" -> StepSet(c, e)
                [] e.op = "connect" -> StepConnect(c, e)
                [] e.op = "disconnect" -> StepDisconnect(c, e)

Init == tid \in 1..Len(Histories) /\ l = 1 /\ cs = <<>> /\ verdict = "ok"
Finish(v, n) == PrintT(<<"VERDICT", tid, n, v>>)
Next ==
  /\ verdict = "ok"
  /\ IF l > Len(Histories[tid].ev)
     THEN verdict' = "done" /\ Finish("ok", l - 1) /\ UNCHANGED <<tid, l, cs>>
     ELSE LET e == Histories[tid].ev[l]
              x == TLCEval(IF e.op = "new" THEN StepNew(e) ELSE IF e.op = "later" THEN StepLater(cs[e.c], e)
                         ELSE Step(cs[e.c], e))
              r == IF x.v \in Ignored THEN [x EXCEPT !.v = "ok"] ELSE x IN
          /\ verdict' = r.v
          /\ cs' = IF e.op = "new" THEN Append(cs, r.c) ELSE [cs EXCEPT ![e.c] = r.c]
          /\ l' = l + 1
          /\ UNCHANGED tid
          /\ (r.v # "ok" => Finish(r.v, l))
Spec == Init /\ [][Next]_vars
=============================================================================
