------------------------------ MODULE MCTransport ----------------------------
(***************************************************************************)
(* Every history of at most Depth operations of a transport over a small   *)
(* alphabet of operations, link behaviours and faults, and the properties  *)
(* of the design.  Every history of full length is printed as a test.      *)
(***************************************************************************)
EXTENDS Transport, Json, TLC

CONSTANTS Depth, Emit

T == 10000
Cfg == [endpoint |-> [x |-> 1], timeout |-> T]
A == 65
\* What may happen on the link while the caller waits: gaps and bytes.
Feeds == [ line   |-> [f |-> << <<3, A>>, <<0, 27>>, <<7, 13>> >>, fin |-> ""],
           two    |-> [f |-> << <<0, A>>, <<0, 13>>, <<0, 66>>, <<0, 67>>, <<1, 13>> >>, fin |-> ""],
           slow   |-> [f |-> << <<6000, A>>, <<6000, 66>>, <<500, 67>>, <<100, 13>> >>, fin |-> ""],
           part   |-> [f |-> << <<5, A>>, <<5, 66>> >>, fin |-> ""],
           late   |-> [f |-> << <<5, A>>, <<15000, 67>>, <<1, 13>> >>, fin |-> ""],
           none   |-> [f |-> <<>>, fin |-> ""],
           eof    |-> [f |-> << <<2, A>> >>, fin |-> "eof"],
           err    |-> [f |-> << <<2, A>> >>, fin |-> "err"] ]
FeedNames == DOMAIN Feeds

VARIABLES s, hist, got, fed
vars == <<s, hist, got, fed>>

Init == s = NewTransport(Cfg) /\ hist = <<>> /\ got = <<>> /\ fed = <<>>
More == Len(hist) < Depth
Log(op, x) == /\ hist' = Append(hist, [op |-> op, x |-> x])
              /\ (Emit /\ Len(hist) + 1 = Depth => PrintT("TEST " \o ToJson(hist')))

Connect(ok) == /\ s' = AfterConnect(s, ok)
               /\ got' = IF s.up THEN got ELSE <<>>
               /\ fed' = IF s.up THEN fed ELSE <<>>
               /\ Log("connect", IF ok THEN "ok" ELSE "fail")
Disconnect(ok) == /\ s' = AfterDisconnect(s) /\ UNCHANGED <<got, fed>>
                  /\ Log("disconnect", IF ok THEN "ok" ELSE "fail")
Send(ok) == UNCHANGED <<s, got, fed>> /\ Log("send", IF ok THEN "ok" ELSE "fail")
Recv(name) == LET f == Feeds[name]
                  a == IF s.up THEN Feed(s, f.f, f.fin) ELSE s IN
              /\ s.fin = "open" \/ f = Feeds["none"]
              /\ s' = AfterRecv(a)
              /\ got' = got \o [i \in 1..(Len(a.q) - Len(s'.q)) |-> a.q[i].b]
              /\ fed' = IF s.up THEN fed \o [i \in 1..Len(f.f) |-> f.f[i][2]] ELSE fed
              /\ Log("recv", name)
Set(x) == /\ s' = AfterSet(s, [Cfg EXCEPT !.endpoint.x = x]) /\ UNCHANGED <<got, fed>>
          /\ s.cfg.endpoint.x # x
          /\ Log("set", IF x = 1 THEN "own" ELSE "other")
Next == More /\ \/ \E x \in {1, 2} : Set(x)
                \/ \E ok \in BOOLEAN : Connect(ok) \/ Disconnect(ok) \/ Send(ok)
                \/ \E name \in FeedNames : Recv(name)
Spec == Init /\ [][Next]_vars

(* --- the properties, of the design -------------------------------------- *)
\* Nothing is lost or invented between calls: what was taken off the link is
\* a prefix of what was put on it, and the rest is still there.
Bytes(q) == [i \in 1..Len(q) |-> q[i].b]
NothingLost == s.up => got \o Bytes(s.q) = fed
\* A receive never takes longer than two timeouts, a failed one not longer
\* than the last byte plus one timeout; it returns at most one end character.
AllFeeds == {Feed(s, Feeds[n].f, Feeds[n].fin) : n \in FeedNames}
Bounded == \A a \in AllFeeds :
  s.up => LET r == Receive(a) IN
    /\ r.k \in {"bytes", "CommunicationError"}
    /\ r.t - a.clock <= 2 * T
    /\ (r.k = "bytes" =>
          /\ r.d # <<>> /\ r.d = Bytes(SubSeq(a.q, 1, r.n))
          /\ \A i \in 1..(Len(r.d) - 1) : r.d[i] # LineEnd
          /\ (r.d[Len(r.d)] # LineEnd => r.t - a.clock >= T))
LifeCycle ==
  /\ (s.up => ConnectOutcome(s, TRUE) = "RuntimeError" /\ Opens(s) = <<>>)
  /\ (~s.up => /\ SendOutcome(s, TRUE) = "RuntimeError" /\ Receive(s).k = "RuntimeError"
               /\ DisconnectOutcome(s, FALSE) = "ok")
  /\ ConnectOutcome(AfterDisconnect(s), TRUE) = "ok"
  /\ Opens(AfterDisconnect(s)) = <<s.cfg.endpoint>>
=============================================================================
