------------------------------- MODULE MCClient ------------------------------
(***************************************************************************)
(* Exhaustive exploration of a client over a finite alphabet of calls and  *)
(* link behaviours: any number of calls, halves of exchanges, reconnects   *)
(* and failures; only the number of reads is bounded, from one clean state *)
(* of the session to the next.  Every transition is        *)
(* printed as a test.                                                      *)
(***************************************************************************)
EXTENDS Client, Json, TLC

CONSTANTS Enc, MaxReads, Emit

Key16 == <<13, 27, 141, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 250, 14, 15>>
Key2 == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>
Kid == 3
Num(n) == VInt(LE(n, 3))
Cfg == [d1 |-> Num(0), d2 |-> Num(0), s1 |-> Num(0), s2 |-> Num(0),
        key |-> IF Enc THEN Key16 ELSE <<>>, kid |-> IF Enc THEN Kid ELSE 0]
Pw == VText(<<97, 13, 27, 100, 101, 141>>)
Rq(k) == [k |-> k, pw |-> Pw, a |-> Num(3), x |-> Num(255), y |-> Num(13),
          tm |-> VTime(<<2024, 2, 29, 23, 59, 58>>)]
Calls == [time |-> Rq("time"), params |-> Rq("params"), byid |-> Rq("byid"),
          badwrite |-> [Rq("write") EXCEPT !.tm = VTime(<<1999, 1, 1, 0, 0, 0>>)]]
CallNames == DOMAIN Calls

Fr(type, svc, data) == EncodeFrame([type |-> type, svc |-> svc, d1 |-> <<27, 0>>, d2 |-> 141,
                                    s1 |-> <<13, 13>>, s2 |-> 1, data |-> data])
Zeros(n) == [i \in 1..n |-> 0]
Answer(svc, data) ==
  Escape(IF Enc THEN Fr(TEncResponse, svc, Seal(Key16, Kid, data, Zeros(PadLen(Len(data)))))
         ELSE Fr(TResponse, svc, data))
TimeData == <<88, 89, 163, 41, 2, 36, 1, 13, 27, 141, 7, 7>>
ArchiveData == <<3, 13, 27, 141, 255, 1, 2, 3>>
\* One binary object, as bytes.
Object(n) == Record(31, [i \in 1..MinLength(Types[31].layout) |-> (n + i * 5) % 251])
PageData(number, amount, end, data) == LE(number, 2) \o LE(amount, 2) \o <<end>> \o data
TimeAnswer == Answer(SvcTime, TimeData)
Corrupt == Escape([Fr(TResponse, SvcTime, TimeData) EXCEPT ![15] = (@ + 64) % 256])
Chunks ==
  [ time    |-> TimeAnswer,
    archive |-> Answer(SvcById, ArchiveData),
    page    |-> Answer(SvcParams, PageData(255, 1, 0, Object(1))),
    last    |-> Answer(SvcParams, PageData(256, 1, 1, Object(2))),
    nothing |-> Answer(SvcParams, PageData(256, 0, 0, <<>>)),
    head    |-> Take(TimeAnswer, Len(TimeAnswer) \div 2),
    tail    |-> Drop(TimeAnswer, Len(TimeAnswer) \div 2),
    error   |-> Answer(SvcTime, <<6>>),
    foreign |-> Answer(101, <<1, 2, 3>>),
    badtime |-> Answer(SvcTime, [TimeData EXCEPT ![2] = 170]),
    corrupt |-> Corrupt,
    noisy   |-> <<65, 13>> \o TimeAnswer,
    twice   |-> Answer(SvcById, ArchiveData) \o TimeAnswer \o Answer(SvcById, ArchiveData) ]
ChunkNames == DOMAIN Chunks
ASSUME PrintT("ALPHABET " \o ToJson([cfg |-> Cfg, pw |-> Pw, calls |-> Calls, chunks |-> Chunks]))

VARIABLES c, n, hist
vars == <<c, n, hist>>
View == <<c, n>>

Init == c = NewClient(Cfg, Pw) /\ n = 0 /\ hist = <<>>
Log(op, x) == /\ hist' = Append(hist, [op |-> op, x |-> x])
              /\ (Emit => PrintT("TEST " \o ToJson(hist')))
Call(name) == /\ c.ph = "idle" /\ c' = Begin(c, Calls[name]) /\ n' = n /\ Log("call", name)
AskFor(name) == /\ c.ph = "idle" /\ c' = BeginAsk(c, Calls[name]) /\ n' = n /\ Log("ask", name)
Await == /\ c.ph = "idle" /\ c' = BeginAwait(c) /\ n' = n /\ Log("await", "")
Write(ok) == /\ c.ph = "write" /\ c' = (IF ok THEN Wrote(c) ELSE LinkFailed(c, "CommunicationError"))
             /\ n' = n /\ Log("w", IF ok THEN "ok" ELSE "fail")
ReadSome(x) == /\ c.ph = "read" /\ n < MaxReads /\ c' = Got(c, Chunks[x]) /\ n' = n + 1 /\ Log("r", x)
ReadFails == /\ c.ph = "read" /\ c' = LinkFailed(c, "CommunicationError") /\ n' = n /\ Log("r", "fail")
Clean == c.s.st = Idle /\ c.s.buf = <<>>
End == /\ c.ph = "done" /\ c' = Ended(c) /\ n' = (IF Clean THEN 0 ELSE n) /\ hist' = hist
Connect == /\ c.ph = "idle" /\ c' = Connected(c) /\ n' = 0 /\ Log("connect", "")
Next == \/ \E x \in CallNames : Call(x) \/ AskFor(x)
        \/ Await
        \/ \E ok \in BOOLEAN : Write(ok)
        \/ \E x \in ChunkNames : ReadSome(x)
        \/ ReadFails \/ End \/ Connect
Spec == Init /\ [][Next]_vars

(* --- the properties, of the design -------------------------------------- *)
TypeOK == /\ c.ph \in {"idle", "write", "read", "done"} /\ c.s.cfg = Cfg
          /\ (c.ph = "done") = (c.want.k # "pending")
          /\ c.ph \in {"write", "read"} /\ c.half # "await" => c.s.st = SvcOf(c.req.k)
\* A value comes from an answer of its own service, and leaves nothing behind.
CleanSuccess == c.ph = "done" /\ c.want.k \in {"value", "objs"} =>
                  c.s.st = Idle /\ c.s.buf = <<>>
\* The first half of an exchange looks at nothing; the second writes nothing.
HalvesApart == [][ /\ c.half = "ask" /\ c.ph = "read" /\ c'.want.k # "err" => c'.s.st = c.s.st
                   /\ c.half = "await" => c'.ph # "write" /\ c'.s.st \in {c.s.st, Idle} ]_vars
\* One request on the wire per exchange: writing is never followed by
\* writing without a complete response in between.
OneRequest == [][ c'.ph = "write" => \/ c.ph = "idle"
                                     \/ c.ph = "read" /\ c.paged /\ c.s.st = SvcParams /\ c'.s.buf = <<>> ]_vars
\* Connecting leaves no trace of anything before.
FreshAfterConnect == Connected(c).s = NewSession(Cfg)
\* After connecting, a normal exchange works.
Works == c.ph = "idle" =>
  LET d == Got(Wrote(Begin(Connected(c), Calls["time"])), TimeAnswer) IN d.ph = "done" /\ d.want.k = "value"
=============================================================================
