---------------------------- MODULE TraceTransport ---------------------------
(***************************************************************************)
(* Validation of recorded histories of real transports over a simulated    *)
(* operating system (see harness/links.py) against Transport.              *)
(*                                                                         *)
(* [op |-> "new", c, cfg, out]                                             *)
(* [op |-> "set", c, cfg, out]               other settings                *)
(* [op |-> "connect", c, ok, opens, out]     ok: the OS opened the link    *)
(* [op |-> "disconnect", c, ok, closed, out] closed: links closed          *)
(* [op |-> "send", c, d, ok, w, out]         w: bytes written to the link  *)
(* [op |-> "recv", c, feed, fin, used, t, w, out]                          *)
(* [op |-> "until", c, until, size, feed, ...]                             *)
(*                                           used: bytes taken off the link*)
(*                                           (-1: real link, not measured) *)
(*                                           t: milliseconds it took       *)
(***************************************************************************)
EXTENDS Transport, Errors, Json, IOUtils, TLC

Trace == JsonDeserialize(IOEnv.TRACE)
Histories == Trace.h
Ignored == {Trace.ignore[i] : i \in 1..Len(Trace.ignore)}

VARIABLES tid, l, ts, verdict
vars == <<tid, l, ts, verdict>>

Went(o, want) == IF want = "ok" THEN o.k = "ok" ELSE Raised(o, want)
R(v, s) == [v |-> v, s |-> s]
B(cond, clause) == IF cond THEN "ok" ELSE clause
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ p = SubSeq(s, 1, Len(p))

StepConnect(s, e) ==
  R(IF e.opens # Opens(s) THEN IF s.up THEN "connect-opens-second-link" ELSE "connect-endpoint"
    ELSE B(Went(e.out, ConnectOutcome(s, e.ok = 1)), "connect-" \o ConnectOutcome(s, e.ok = 1)),
    AfterConnect(s, e.ok = 1))

StepDisconnect(s, e) ==
  R(IF s.up /\ e.ok = 1 /\ e.closed # 1 THEN "disconnect-leaves-link-open"
    ELSE B(Went(e.out, DisconnectOutcome(s, e.ok = 1)), "disconnect-" \o DisconnectOutcome(s, e.ok = 1)),
    AfterDisconnect(s))

StepSend(s, e) ==
  LET o == SendOutcome(s, e.ok = 1) IN
  R(IF ~Went(e.out, o) THEN "send-" \o o
    ELSE CASE o = "ok" -> B(e.w = e.d, "send-bytes")
           [] o = "RuntimeError" -> B(e.w = <<>>, "send-bytes")
           [] OTHER -> B(IsPrefixOf(e.w, e.d), "send-bytes"), s)

\* recv, or (e.until) a read up to another end, whose errors are the system's own.
StepRecv(s0, e) ==
  LET s == IF s0.up THEN Feed(s0, e.feed, e.fin) ELSE s0
      own == e.op = "recv"
      until == IF own THEN <<LineEnd>> ELSE e.until
      size == IF own THEN 0 ELSE e.size
      r == TLCEval(ReceiveUntil(s, until, size)) IN
  R(IF r.k \in {"forever", "edge"} THEN "free"
    ELSE IF r.k = "bytes"
    THEN IF e.out.k # "bytes" THEN "recv-not-delivered"
         ELSE IF e.out.d # r.d THEN "recv-bytes"
         ELSE IF e.used = -1 THEN "ok"
         ELSE IF e.used # r.n THEN "recv-consumes-too-much"
         ELSE B(e.t = r.t - s.clock, "recv-duration")
    ELSE IF ~(IF own \/ ~s.up THEN Went(e.out, r.k) ELSE RaisedSomething(e.out)) THEN "recv-" \o r.k
    ELSE IF e.used = -1 THEN "ok"
    ELSE IF e.used # r.n THEN "recv-consumes-too-much"
    ELSE IF e.w # <<>> THEN "recv-writes"
    ELSE B(e.t <= r.t - s.clock, "recv-blocks-too-long"),
    AfterRecvUntil(s, until, size))

StepSet(s, e) == R(B(e.out.k = "ok", "settings"), AfterSet(s, e.cfg))

Step(s, e) == CASE e.op = "set" -> StepSet(s, e)
                [] e.op = "connect" -> StepConnect(s, e)
                [] e.op = "disconnect" -> StepDisconnect(s, e)
                [] e.op = "send" -> StepSend(s, e)
                [] e.op \in {"recv", "until"} -> StepRecv(s, e)

Init == tid \in 1..Len(Histories) /\ l = 1 /\ ts = <<>> /\ verdict = "ok"
Finish(v, n) == PrintT(<<"VERDICT", tid, n, v>>)
Next ==
  /\ verdict = "ok"
  /\ IF l > Len(Histories[tid].ev)
     THEN verdict' = "done" /\ Finish("ok", l - 1) /\ UNCHANGED <<tid, l, ts>>
     ELSE LET e == Histories[tid].ev[l]
              x == TLCEval(IF e.op = "new"
                           THEN R(B(e.out.k = "ok", "new-transport"), NewTransport(e.cfg))
                           ELSE Step(ts[e.c], e))
              r == IF x.v \in Ignored THEN [x EXCEPT !.v = "ok"] ELSE x IN
          /\ verdict' = r.v
          /\ ts' = IF e.op = "new" THEN Append(ts, r.s) ELSE [ts EXCEPT ![e.c] = r.s]
          /\ l' = l + 1
          /\ UNCHANGED tid
          /\ (r.v # "ok" => Finish(r.v, l))
Spec == Init /\ [][Next]_vars
=============================================================================
