------------------------------- MODULE MCSession -----------------------------
(***************************************************************************)
(* Exhaustive exploration of one connection over a finite alphabet of      *)
(* requests and received chunks.  Nothing bounds the length of histories:  *)
(* only the number of chunks waiting in the receive buffer is bounded, so  *)
(* the state graph is finite and explored completely.                      *)
(*                                                                         *)
(* Every transition is also printed as a test: the calls that lead there.  *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

CONSTANTS Enc,        \* is there an encryption key?
          MaxChunks,  \* bound on unread chunks
          Emit        \* print the tests?

Key16 == <<13, 27, 141, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 250, 14, 15>>
Key2 == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>
Kid == 3
Num(n) == VInt(LE(n, 3))
Cfg == [d1 |-> Num(3355), d2 |-> Num(13), s1 |-> Num(36109), s2 |-> Num(27),
        key |-> IF Enc THEN Key16 ELSE <<>>, kid |-> IF Enc THEN Kid ELSE 0]

\* --- requests -------------------------------------------------------------
Pw == VText(<<97, 98, 99, 100, 101, 102>>)
Now == VTime(<<2024, 2, 29, 23, 59, 58>>)
Rq(k) == [k |-> k, pw |-> Pw, a |-> Num(3), x |-> Num(3341), y |-> Num(1024), tm |-> Now]
Requests == [ time |-> Rq("time"), values |-> Rq("values"), params |-> Rq("params"),
              write |-> Rq("write"), byid |-> Rq("byid"), bytime |-> Rq("bytime"),
              badpw |-> [Rq("params") EXCEPT !.pw = VText(<<97, 98>>)],
              badnum |-> [Rq("byid") EXCEPT !.y = Num(65536)],
              object |-> Rq("object") ]
RequestNames == DOMAIN Requests

\* --- what the device (or the line) may deliver ----------------------------
Fr(type, svc, data) == EncodeFrame([type |-> type, svc |-> svc, d1 |-> <<27, 0>>, d2 |-> 141,
                                    s1 |-> <<13, 13>>, s2 |-> 1, data |-> data])
Zeros(n) == [i \in 1..n |-> 0]
Env(key, data) == Seal(key, Kid, data, Zeros(PadLen(Len(data))))
Plain(svc, data) == Escape(Fr(TResponse, svc, data))
Sealed(svc, data) == Escape(Fr(TEncResponse, svc, Env(Key16, data)))
Answer(svc, data) == IF Enc THEN Sealed(svc, data) ELSE Plain(svc, data)

TimeData == <<88, 89, 163, 41, 2, 36, 1, 13, 27, 141, 7, 7>>
ValuesData == TimeData \o [i \in 1..30 |-> (i * 7) % 256]
ParamsData == <<3, 1, 2, 0, 1, 13, 27, 141>>
ArchiveData == <<3, 13, 27, 141, 255, 1, 2, 3>>
Half(s, k) == IF k = 1 THEN Take(s, Len(s) \div 2) ELSE Drop(s, Len(s) \div 2)
Flip(s, i) == [s EXCEPT ![i] = (@ + 64) % 256]

TimeAnswer == Answer(SvcTime, TimeData)
Corrupt == Escape(Flip(Fr(TResponse, SvcTime, TimeData), 15))
Chunks ==
  [ time    |-> TimeAnswer,
    params  |-> Answer(SvcParams, ParamsData),
    archive |-> Answer(SvcById, ArchiveData),
    head    |-> Half(TimeAnswer, 1),
    tail    |-> Half(TimeAnswer, 2),
    error   |-> Answer(SvcTime, <<6>>),
    foreign |-> Answer(101, <<1, 2, 3>>),
    badtime |-> Answer(SvcTime, Flip(TimeData, 2)),
    corrupt |-> Corrupt,
    noise   |-> <<65, 13>>,
    endchar |-> <<13>>,
    request |-> Escape(Fr(TRequest, SvcTime, <<>>)),
    crypt   |-> Escape(Fr(TEncResponse, SvcTime, Env(Key2, TimeData))) ]
ChunkNames == DOMAIN Chunks
ASSUME PrintT("ALPHABET " \o ToJson([cfg |-> Cfg, requests |-> Requests, chunks |-> Chunks]))

VARIABLES s, n, hist
vars == <<s, n, hist>>
View == <<s, n>>

Step(h) == hist' = Append(hist, h)
Init == s = NewSession(Cfg) /\ n = 0 /\ hist = <<>>

Send(q) == /\ s' = AfterSend(s, Requests[q])
           /\ n' = n
           /\ Step([op |-> "send", x |-> q])
Recv(c) == /\ n < MaxChunks
           /\ s' = AfterReceive(s, Chunks[c])
           /\ n' = IF s'.buf = <<>> THEN 0 ELSE n + 1
           /\ Step([op |-> "recv", x |-> c])
Poll == /\ s' = NextEvent(s).s
        /\ n' = IF s'.buf = <<>> THEN 0 ELSE n
        /\ Step([op |-> "next", x |-> ""])
Next == /\ \/ \E q \in RequestNames : Send(q)
           \/ \E c \in ChunkNames : Recv(c)
           \/ Poll
        /\ (Emit => PrintT("TEST " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The properties, of the design.                                          *)
(***************************************************************************)
TypeOK == s.st \in {Idle} \cup RequestServices /\ s.cfg = Cfg /\ n \in 0..MaxChunks

\* One outstanding request; only its own response or a device error ends it.
OneOutstanding ==
  [][ s'.st # s.st =>
        \/ s.st = Idle /\ s'.st # Idle /\ s'.buf = s.buf
        \/ s.st # Idle /\ s'.st = Idle /\ n' = 0
           /\ NextEvent(s).k \in {"pdu", "error"}
           /\ (NextEvent(s).k = "pdu" => NextEvent(s).svc = s.st) ]_vars

\* Polling never loses an outstanding request silently, and consumes.
PollConsumes ==
  LET e == NextEvent(s) IN
  /\ e.k \in {"need", "foreign", "protocol", "bad", "free"} => e.s.st = s.st
  /\ e.k # "need" => Len(e.s.buf) < Len(s.buf)
  /\ e.k = "need" => IndexOf(e.s.buf, EndChar) = 0
  /\ e.k = "pdu" => e.svc = s.st

\* All events from here until more data is needed, and the session then.
RECURSIVE Drain(_)
Drain(x) == LET e == TLCEval(NextEvent(x)) IN
            IF e.k = "need" THEN [ev |-> <<>>, s |-> e.s]
            ELSE LET d == TLCEval(Drain(e.s)) IN
                 [ev |-> << [k |-> e.k, svc |-> e.svc, f |-> e.f, name |-> e.name] >> \o d.ev, s |-> d.s]

\* Whatever has happened, after one end character (which completes whatever
\* rubbish is pending) the connection works.
NoWedge ==
  LET a == Drain([s EXCEPT !.buf = @ \o <<EndChar>>]).s
      b == IF a.st = Idle THEN AfterSend(a, Requests["time"]) ELSE a
      data == CASE b.st = SvcTime -> TimeData [] b.st = SvcValues -> ValuesData
                [] b.st = SvcParams -> ParamsData [] b.st \in {SvcById, SvcByTime} -> ArchiveData
                [] b.st = SvcWriteTime -> <<0>>
      e == Drain(AfterReceive(b, Answer(b.st, data)))
  IN a.buf = <<>> /\ Len(e.ev) = 1 /\ e.ev[1].k = "pdu" /\ e.s = [s EXCEPT !.st = Idle, !.buf = <<>>]

\* Splitting a telegram changes nothing.
SplitInvariant ==
  s.buf = <<>> =>
    \A c \in {"time", "error", "corrupt", "foreign", "crypt"} : \A k \in 1..(Len(Chunks[c]) - 1) :
      LET t == Chunks[c]
          whole == Drain(AfterReceive(s, t))
          first == Drain(AfterReceive(s, Take(t, k)))
          both == Drain(AfterReceive(first.s, Drop(t, k)))
      IN first.ev = <<>> /\ both = whole
=============================================================================
