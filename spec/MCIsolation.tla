------------------------------ MODULE MCIsolation ----------------------------
(***************************************************************************)
(* Two sessions side by side.  Checked of the design: whatever is done     *)
(* with one leaves the other as it is, and each behaves as its own         *)
(* projection of the history prescribes.  All interleavings of at most     *)
(* Depth operations are explored; the full-length ones are the tests.      *)
(***************************************************************************)
EXTENDS Session, Json

CONSTANTS Depth, Emit

Num(n) == VInt(LE(n, 3))
Key1 == <<13, 27, 141, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 250, 14, 15>>
\* one plain and one encrypting connection
Cfgs == << [d1 |-> Num(258), d2 |-> Num(3), s1 |-> Num(4), s2 |-> Num(5), key |-> <<>>, kid |-> 0],
           [d1 |-> Num(6), d2 |-> Num(7), s1 |-> Num(2056), s2 |-> Num(9), key |-> Key1, kid |-> 5] >>
Pw == VText(<<97, 98, 99, 100, 101, 102>>)
Rq(i, k) == [k |-> k, pw |-> Pw, a |-> Num(1), x |-> Num(i), y |-> Num(i), tm |-> VTime(<<2024, 2, 29, 12, 34, 56>>)]
Kinds == {"time", "byid"}
Zeros(n) == [i \in 1..n |-> 0]
Answer(i, svc, data) ==
  LET key == Cfgs[i].key IN
  Escape(EncodeFrame([type |-> IF key = <<>> THEN TResponse ELSE TEncResponse, svc |-> svc,
                      d1 |-> <<0, 0>>, d2 |-> 0, s1 |-> <<0, 0>>, s2 |-> i,
                      data |-> IF key = <<>> THEN data ELSE Seal(key, Cfgs[i].kid, data, Zeros(PadLen(Len(data))))]))
TimeData(i) == <<88, 89, 163, 41, 2, 36, 1, i, 27, 141, 7, 7>>
ArchiveData(i) == <<3, i, 27, 141, 255, 1, 2, 3>>
Chunks(i) == [ time  |-> Answer(i, SvcTime, TimeData(i)),
               byid  |-> Answer(i, SvcById, ArchiveData(i)),
               half  |-> Take(Answer(i, SvcTime, TimeData(i)), 9),
               error |-> Answer(i, SvcById, <<16>>) ]
ChunkTable == << Chunks(1), Chunks(2) >>
ASSUME PrintT("ALPHABET " \o ToJson([cfgs |-> Cfgs, chunks |-> ChunkTable]))

VARIABLES s, hist
vars == <<s, hist>>
Init == s = <<NewSession(Cfgs[1]), NewSession(Cfgs[2])>> /\ hist = <<>>
Log(i, op, x) == /\ hist' = Append(hist, [c |-> i, op |-> op, x |-> x])
                 /\ (Emit /\ Len(hist) + 1 = Depth => PrintT("TEST " \o ToJson(hist')))
Set(i, new) == s' = [s EXCEPT ![i] = new]
Next == /\ Len(hist) < Depth
        /\ \E i \in {1, 2} :
             \/ \E k \in Kinds : Set(i, AfterSend(s[i], Rq(i, k))) /\ Log(i, "send", k)
             \/ \E x \in DOMAIN ChunkTable[i] : Set(i, AfterReceive(s[i], ChunkTable[i][x])) /\ Log(i, "recv", x)
             \/ Set(i, NextEvent(s[i]).s) /\ Log(i, "next", "")
Spec == Init /\ [][Next]_vars

\* Each session is what its own part of the history makes of it.
Alone(i) ==
  FoldLeft(LAMBDA x, e : TLCEval(IF e.c # i THEN x
                         ELSE CASE e.op = "send" -> AfterSend(x, Rq(i, e.x))
                                [] e.op = "recv" -> AfterReceive(x, ChunkTable[i][e.x])
                                [] e.op = "next" -> NextEvent(x).s),
           NewSession(Cfgs[i]), hist)
Isolated == Len(hist) = Depth => \A i \in {1, 2} : s[i] = Alone(i)
OneAtATime == [][ \E i \in {1, 2} : s'[i] = s[i] ]_vars
=============================================================================
