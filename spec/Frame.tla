-------------------------------- MODULE Frame --------------------------------
(***************************************************************************)
(* ELGAS2 frames, before escaping:                                         *)
(*   02 FE type service len(2) dest1(2) dest2 src1(2) src2 data            *)
(*   LRC SUM DRC 0D                                                        *)
(* `len` counts every byte except the leading 02.                          *)
(***************************************************************************)
EXTENDS Escape, Redundancy

TRequest == 132
TEncRequest == 133
TResponse == 134
TEncResponse == 135
FrameTypes == {TRequest, TEncRequest, TResponse, TEncResponse}

Services == {100, 101, 103, 123, 104, 124, 108, 112, 113, 119, 121, 135, 145, 125}

Overhead == 15
MaxData == 65535 - Overhead

\* f = [type, svc, d1, d2, s1, s2, data]; d1, s1 are two-byte sequences.
FrameHead(f) == <<254, f.type, f.svc>> \o LE(Len(f.data) + Overhead, 2)
                \o f.d1 \o <<f.d2>> \o f.s1 \o <<f.s2>>
FrameBody(f) == FrameHead(f) \o f.data
EncodeFrame(f) == LET b == FrameBody(f)
                  IN <<2>> \o b \o <<LRC(b), SUM(b), DRC(b), EndChar>>

\* The first test a byte string fails as a frame of one of `types`, "ok" if none.
FrameVerdict(s, types) ==
  LET n == Len(s) IN
  IF n < 3 THEN "start"
  ELSE IF s[1] # 2 \/ s[2] # 254 \/ s[3] \notin types THEN "start"
  ELSE IF s[n] # EndChar THEN "end"
  ELSE IF n < Overhead + 1 THEN "short"
  ELSE IF s[4] \notin Services THEN "service"
  ELSE IF LEVal(<<s[5], s[6]>>) # n - 1 THEN "length"
  ELSE LET b == SubSeq(s, 2, n - 4) IN
       IF s[n - 3] # LRC(b) THEN "lrc"
       ELSE IF s[n - 2] # SUM(b) THEN "sum"
       ELSE IF s[n - 1] # DRC(b) THEN "drc"
       ELSE "ok"

\* The frame a byte string with verdict "ok" stands for.
FrameOf(s) == [type |-> s[3], svc |-> s[4], d1 |-> <<s[7], s[8]>>, d2 |-> s[9],
               s1 |-> <<s[10], s[11]>>, s2 |-> s[12],
               data |-> SubSeq(s, 13, Len(s) - 4)]
=============================================================================
