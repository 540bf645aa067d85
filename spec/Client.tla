-------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The client: calls made of exchanges over a transport.  A call takes     *)
(* these steps                                                             *)
(*                                                                         *)
(*   begin --- write --- read --- ... --- read --- end                     *)
(*               ^                          |                              *)
(*               '--- (next page of the read-out) <-'                      *)
(*                                                                         *)
(* A client is a record                                                    *)
(*   s     its session                                                     *)
(*   pw    its password                                                    *)
(*   ph    "idle" (no call under way), "write" (a request must be put on   *)
(*         the wire next), "read" (the response is being waited for),      *)
(*         "done" (the call must end with outcome `want`)                  *)
(*   req   the request of the exchange under way                           *)
(*   want  [k, ...]  how the call must end                                 *)
(*   all   parameter data of the pages received so far                     *)
(*   paged is the call a parameter read-out?                               *)
(*   half  "" for a whole call; "ask" for the first half of an exchange    *)
(*         (`send`: one request written, one read) and "await" for the     *)
(*         second (`next_event`: what was read is looked at, then more is  *)
(*         read until there is an event)                                   *)
(***************************************************************************)
EXTENDS Session, Layouts

BufferLength == 1024
NoReq == [k |-> "", pw |-> VNone, a |-> VNone, x |-> VNone, y |-> VNone, tm |-> VNone]
Pending == [k |-> "pending", names |-> {}, f |-> <<>>, o |-> <<>>, svc |-> 0]
Fail(names) == [Pending EXCEPT !.k = "err", !.names = names]
NewClient(cfg, pw) == [s |-> NewSession(cfg), pw |-> pw, ph |-> "idle", req |-> NoReq,
                       want |-> Pending, all |-> <<>>, paged |-> FALSE, half |-> ""]

Done(c, want) == [c EXCEPT !.ph = "done", !.want = want]
Ended(c) == [c EXCEPT !.ph = "idle", !.req = NoReq, !.want = Pending, !.all = <<>>, !.paged = FALSE, !.half = ""]

\* Starting an exchange.
Ask(c, req) ==
  IF SendRefused(c.s, req) THEN Done([c EXCEPT !.req = req], Fail({"LocalElgasProtocolError"}))
  ELSE IF SendFails(c.s, req) THEN Done([c EXCEPT !.req = req], Fail({}))  \* some error
  ELSE [c EXCEPT !.s = AfterSend(@, req), !.ph = "write", !.req = req]

PageRequest(c, from) == [NoReq EXCEPT !.k = "params", !.pw = c.pw, !.x = from, !.y = VInt(LE(BufferLength, 2))]

Begin(c, call) ==
  IF call.k = "params" THEN Ask([c EXCEPT !.paged = TRUE, !.all = <<>>], PageRequest(c, call.x))
  ELSE Ask([c EXCEPT !.paged = FALSE], [call EXCEPT !.pw = c.pw])

Wrote(c) == [c EXCEPT !.ph = "read"]
\* The transport failed with this exception.
LinkFailed(c, name) == Done(c, Fail({name}))

FieldNamed(f, name) == f[CHOOSE i \in 1..Len(f) : f[i].n = name].d
Plus(x, y) == VInt(LE(LEVal(x) + LEVal(y), 3))

\* A page has been received.
Page(c, f) ==
  LET all == c.all \o FieldNamed(f, "data")
      n == FieldNamed(f, "object_amount")
      p == [c EXCEPT !.all = all] IN
  IF FieldNamed(f, "is_end") # <<>>
  THEN LET d == TLCEval(DecodeStream(all)) IN
       CASE d.v = "ok"   -> Done(p, [Pending EXCEPT !.k = "objs", !.o = d.o])
         [] d.v = "bad"  -> Done(p, Fail({}))
         [] d.v = "free" -> Done(p, [Pending EXCEPT !.k = "free"])
  ELSE IF n = <<>> THEN Done(p, Fail({"LocalElgasProtocolError"}))
  ELSE Ask(p, PageRequest(c, Plus(c.req.x.d, n)))

\* The session is asked for its next event.
Look(c, s) ==
  LET e == TLCEval(NextEvent(s))
      p == [c EXCEPT !.s = e.s] IN
  CASE e.k = "need" -> p
    [] e.k = "free" -> Done(p, [Pending EXCEPT !.k = "free"])
    [] e.k = "bad"  -> Done(p, Fail({}))
    [] e.k \in {"protocol", "error"} -> Done(p, Fail({e.name}))
    [] e.k = "pdu"  -> IF c.paged THEN Page(p, e.f)
                       ELSE Done(p, [Pending EXCEPT !.k = "value", !.f = e.f, !.svc = e.svc])

\* The transport delivered some bytes.
Got(c, chunk) ==
  LET s == AfterReceive(c.s, chunk) IN
  IF c.half = "ask" THEN Done([c EXCEPT !.s = s], [Pending EXCEPT !.k = "none"]) ELSE Look(c, s)

\* An exchange in two halves.
BeginAsk(c, req) == Ask([c EXCEPT !.half = "ask"], req)
BeginAwait(c) == Look([c EXCEPT !.half = "await", !.ph = "read"], c.s)

Connected(c) == [c EXCEPT !.s = AfterReset(@)]
=============================================================================
