-------------------------------- MODULE Session ------------------------------
(***************************************************************************)
(* One protocol connection at the level of bytes.  It is a sans-io state   *)
(* machine: the user sends a request and gets the bytes to put on the      *)
(* wire, hands in received bytes, and asks for the next event.             *)
(*                                                                         *)
(* A session is a record                                                   *)
(*   st   0 when idle, else the service whose response is awaited          *)
(*   buf  received bytes not interpreted yet                               *)
(*   cfg  d1, d2, s1, s2 (own addresses), key (<<>> if none), kid          *)
(***************************************************************************)
EXTENDS Frame, Cipher, Pdu

Idle == 0
NewSession(cfg) == [st |-> Idle, buf |-> <<>>, cfg |-> cfg]
Encrypting(s) == s.cfg.key # <<>>

\* May a connection with these settings exist at all?
GoodConfig(c) == /\ GoodNumber(c.d1, 2) /\ GoodNumber(c.d2, 1)
                 /\ GoodNumber(c.s1, 2) /\ GoodNumber(c.s2, 1)
                 /\ (c.key # <<>> => c.kid # 0)

(***************************************************************************)
(* Sending.                                                                *)
(***************************************************************************)
SendRefused(s, r) == s.st # Idle \/ r.k \notin RequestKinds
SendFails(s, r) == ~PayloadEncodable(r) \/ (Encrypting(s) /\ Len(s.cfg.key) # 16)
AfterSend(s, r) == IF SendRefused(s, r) THEN s
                   ELSE IF SendFails(s, r) THEN s
                   ELSE [s EXCEPT !.st = SvcOf(r.k)]

\* What is wrong with w as the bytes of request r ("ok" if nothing).  The
\* receiver's view: un-escape, check the frame, open the envelope, compare.
WireVerdict(s, r, w) ==
  IF IndexOf(w, EndChar) # Len(w) \/ w = <<>> THEN "wire-end-char"
  ELSE IF Contains(w, TwinChar) THEN "wire-reserved-char"
  ELSE LET u == Unescape(w)
           v == FrameVerdict(u, {IF Encrypting(s) THEN TEncRequest ELSE TRequest}) IN
    IF Escape(u) # w THEN "wire-escaping"
    ELSE IF v # "ok" THEN "wire-frame-" \o v
    ELSE LET f == FrameOf(u) IN
      IF f.svc # SvcOf(r.k) THEN "wire-service"
      ELSE IF f.d1 # Widen(s.cfg.d1.d, 2) \/ f.d2 # Widen(s.cfg.d2.d, 1)[1] THEN "wire-destination"
      ELSE IF f.s1 # Widen(s.cfg.s1.d, 2) \/ f.s2 # Widen(s.cfg.s2.d, 1)[1] THEN "wire-source"
      ELSE IF ~Encrypting(s)
        THEN IF Matches(Payload(r), f.data) THEN "ok" ELSE "wire-payload"
        ELSE LET o == Opened(s.cfg.key, s.cfg.kid, f.data) IN
             IF o.v # "ok" THEN "wire-envelope-" \o o.v
             ELSE IF ~Matches(Payload(r), o.data) THEN "wire-payload"
             ELSE IF o.pad # PadLen(Len(o.data)) THEN "wire-padding"
             ELSE "ok"

(***************************************************************************)
(* Receiving.                                                              *)
(***************************************************************************)
AfterReceive(s, chunk) ==
  IF s.buf = <<>> /\ chunk = <<EndChar>> THEN s ELSE [s EXCEPT !.buf = @ \o chunk]

\* Interpretation of one telegram (up to and including its end character).
\* k: "skip" | "foreign" | "error" | "data"
Interpret(s, tele) ==
  LET u == Unescape(tele)
      v == FrameVerdict(u, {TResponse, TEncResponse}) IN
  IF v # "ok" THEN [k |-> "skip", svc |-> 0, data |-> <<>>, why |-> v]
  ELSE LET f == FrameOf(u) IN
    IF f.type = TEncResponse /\ ~Encrypting(s)
    THEN [k |-> "foreign", svc |-> f.svc, data |-> <<>>, why |-> "nokey"]
    ELSE LET o == IF f.type = TResponse THEN [v |-> "ok", data |-> f.data, pad |-> 0]
                  ELSE Opened(s.cfg.key, s.cfg.kid, f.data) IN
      IF o.v # "ok" THEN [k |-> "skip", svc |-> 0, data |-> <<>>, why |-> o.v]
      ELSE IF IsError(o.data) THEN [k |-> "error", svc |-> f.svc, data |-> o.data, why |-> ""]
      ELSE IF f.svc \notin RequestServices
        THEN [k |-> "foreign", svc |-> f.svc, data |-> o.data, why |-> "service"]
        ELSE [k |-> "data", svc |-> f.svc, data |-> o.data, why |-> ""]

\* Outcome of asking for the next event:
\*   k = "need"     more bytes are needed
\*   k = "pdu"      response of service svc with fields f, completes the request
\*   k = "error"    the device error exception `name`, ends the request
\*   k = "protocol" LocalElgasProtocolError: not what is awaited
\*   k = "bad"      some error: undecodable payload
\*   k = "free"     nothing promised
Out(kind, svc, fields, name, sess) ==
  [k |-> kind, svc |-> svc, f |-> fields, name |-> name, s |-> sess]

\* Telegrams are interpreted one after the other, up to the first one that is
\* not skipped.  p: where the rest of the buffer begins; t: the last telegram.
Skipped == [k |-> "skip", svc |-> 0, data |-> <<>>, why |-> ""]
EndChars(b) == SelectSeq([i \in 1..Len(b) |-> i], LAMBDA i : b[i] = EndChar)
Scan(s) ==
  FoldLeft(LAMBDA a, e : IF a.t.k # "skip" THEN a
                         ELSE TLCEval([p |-> e + 1, t |-> Interpret(s, SubSeq(s.buf, a.p, e))]),
           [p |-> 1, t |-> Skipped], EndChars(s.buf))
NextEvent(s) ==
  LET a == TLCEval(Scan(s))
      t == a.t
      rest == [s EXCEPT !.buf = SubSeq(@, a.p, Len(@))]
      done == [s EXCEPT !.buf = <<>>, !.st = Idle] IN
  CASE t.k = "skip"    -> Out("need", 0, <<>>, "", rest)
    [] t.k = "foreign" -> Out("protocol", t.svc, <<>>, "LocalElgasProtocolError", rest)
    [] t.k = "error"   -> Out("error", t.svc, <<>>, ErrorOf(t.data[1]), done)
    [] t.k = "data"    ->
         LET d == DecodeResponse(t.svc, t.data) IN
         CASE d.v = "free" -> Out("free", t.svc, <<>>, "", rest)
           [] d.v = "bad"  -> Out("bad", t.svc, <<>>, "", rest)
           [] d.v = "ok"   ->
                IF s.st = t.svc THEN Out("pdu", t.svc, d.f, "", done)
                ELSE Out("protocol", t.svc, <<>>, "LocalElgasProtocolError", rest)

AfterReset(s) == NewSession(s.cfg)
=============================================================================
