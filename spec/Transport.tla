------------------------------- MODULE Transport -----------------------------
(***************************************************************************)
(* A blocking byte transport (TCP or serial) and the link under it, with   *)
(* virtual time in milliseconds.                                           *)
(*                                                                         *)
(* A transport is a record                                                 *)
(*   up     is there an open link?                                         *)
(*   q      bytes on their way: a sequence of [at |-> time, b |-> byte]    *)
(*          in order of arrival                                            *)
(*   fin    what happens after them: "open" (silence), "eof", "err"        *)
(*   clock  now                                                            *)
(*   cfg    the configured endpoint and its timeout T (NoTimeout: none)    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

LineEnd == 13
NoTimeout == -1
NewTransport(cfg) == [up |-> FALSE, q |-> <<>>, fin |-> "open", clock |-> 0, cfg |-> cfg]

\* Settings may be changed at any time.  The endpoint is the next connect's
\* business; what a new timeout means to a link that is open already is left
\* open.
AfterSet(s, cfg) == [s EXCEPT !.cfg = cfg]

\* --- connect --------------------------------------------------------------
\* ok: does the operating system manage to open the endpoint?
ConnectOutcome(s, ok) == IF s.up THEN "RuntimeError" ELSE IF ok THEN "ok" ELSE "CommunicationError"
AfterConnect(s, ok) == IF ConnectOutcome(s, ok) = "ok"
                       THEN [s EXCEPT !.up = TRUE, !.q = <<>>, !.fin = "open"] ELSE s
\* The endpoints that are opened on the way: the configured one, once.
Opens(s) == IF s.up THEN <<>> ELSE <<s.cfg.endpoint>>

\* --- disconnect -----------------------------------------------------------
DisconnectOutcome(s, ok) == IF s.up /\ ~ok THEN "CommunicationError" ELSE "ok"
AfterDisconnect(s) == [s EXCEPT !.up = FALSE, !.q = <<>>, !.fin = "open"]

\* --- send -----------------------------------------------------------------
SendOutcome(s, ok) == IF ~s.up THEN "RuntimeError" ELSE IF ok THEN "ok" ELSE "CommunicationError"

\* --- receive --------------------------------------------------------------
\* What the environment does to the link: gaps between bytes are added up.
Arrivals(t, feed) ==
  FoldLeft(LAMBDA a, p : [t |-> a.t + p[1], q |-> Append(a.q, [at |-> a.t + p[1], b |-> p[2]])],
           [t |-> t, q |-> <<>>], feed).q
Feed(s, feed, fin) ==
  LET t == IF s.q = <<>> THEN s.clock
           ELSE IF s.q[Len(s.q)].at > s.clock THEN s.q[Len(s.q)].at ELSE s.clock IN
  [s EXCEPT !.q = @ \o Arrivals(t, feed), !.fin = IF fin = "" THEN @ ELSE fin]

Rcv(k, d, n, t) == [k |-> k, d |-> d, n |-> n, t |-> t]
\* Byte by byte; n: bytes read, t: now, k: how it ended ("" while it has not).
\* It ends with the bytes `until`, or when there are `size` of them (0: any
\* number), or at the first byte at which the time is up.  What comes exactly
\* when the time is up may be in time or not.
ReadByte(a, x, T, t0, until, size) ==
  IF a.k # "" THEN a
  ELSE IF T > 0 /\ (x.at = a.t + T \/ x.at = t0 + T) THEN [a EXCEPT !.k = "edge"]
  ELSE IF T # NoTimeout /\ x.at > a.t + T THEN [a EXCEPT !.k = "silence"]
  ELSE LET now == IF x.at > a.t THEN x.at ELSE a.t
           m == Len(until)
           tail == IF m = 1 THEN <<x.b>>
                   ELSE LET w == Append(a.tail, x.b) IN IF Len(w) > m THEN Tail(w) ELSE w IN
       [n |-> a.n + 1, t |-> now, tail |-> tail,
        k |-> IF tail = until \/ a.n + 1 = size \/ (T # NoTimeout /\ now - t0 >= T) THEN "line" ELSE ""]
ReadUntil(s, until, size) ==
  LET T == s.cfg.timeout
      t0 == s.clock
      a == TLCEval(FoldLeft(LAMBDA acc, x : TLCEval(ReadByte(acc, x, T, t0, until, size)),
                            [n |-> 0, t |-> t0, k |-> "", tail |-> <<>>], s.q)) IN
  IF a.k = "edge" THEN Rcv("edge", <<>>, a.n, a.t)
  ELSE IF a.k = "line" THEN Rcv("bytes", [j \in 1..a.n |-> s.q[j].b], a.n, a.t)
  ELSE IF a.k = "" /\ s.fin # "open" THEN Rcv("CommunicationError", <<>>, a.n, a.t)
  ELSE IF T = NoTimeout THEN Rcv("forever", <<>>, a.n, a.t)
  ELSE Rcv("CommunicationError", <<>>, a.n, a.t + T)

ReceiveUntil(s, until, size) ==
  IF ~s.up THEN Rcv("RuntimeError", <<>>, 0, s.clock) ELSE ReadUntil(s, until, size)
Receive(s) == ReceiveUntil(s, <<LineEnd>>, 0)
AfterRecvUntil(s, until, size) ==
  LET r == ReceiveUntil(s, until, size) IN [s EXCEPT !.q = SubSeq(@, r.n + 1, Len(@)), !.clock = r.t]
AfterRecv(s) == AfterRecvUntil(s, <<LineEnd>>, 0)
=============================================================================
