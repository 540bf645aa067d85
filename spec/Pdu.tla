---------------------------------- MODULE Pdu --------------------------------
(***************************************************************************)
(* Application payloads.  Values that the implementation hands out or is   *)
(* given are tagged: [t |-> tag, d |-> sequence of integers] with tags     *)
(*   "i" non-negative integer (canonical little-endian bytes), "m" negative *)
(*   "b" byte string   "s" text (character codes)   "tm" calendar time     *)
(*   "n" None          "x" anything else                                   *)
(***************************************************************************)
EXTENDS Calendar, Errors

VInt(d) == [t |-> "i", d |-> Trim(d)]
VBytes(s) == [t |-> "b", d |-> s]
VText(s) == [t |-> "s", d |-> s]
VTime(tm) == [t |-> "tm", d |-> tm]
VNone == [t |-> "n", d |-> <<>>]
Fld(name, v) == [n |-> name, t |-> v.t, d |-> v.d]

SvcValues == 100
SvcTime == 108
SvcWriteTime == 113
SvcParams == 112
SvcById == 124
SvcByTime == 125
SvcCall == 135       \* sent by the device, answered with nothing

RequestKinds == {"values", "time", "write", "params", "byid", "bytime"}
SvcOf(kind) == CASE kind = "values" -> SvcValues
                 [] kind = "time"   -> SvcTime
                 [] kind = "write"  -> SvcWriteTime
                 [] kind = "params" -> SvcParams
                 [] kind = "byid"   -> SvcById
                 [] kind = "bytime" -> SvcByTime
RequestServices == {SvcOf(k) : k \in RequestKinds}

Wild == -1   \* an insignificant byte of a payload

(***************************************************************************)
(* Requests: [k, pw, a, x, y, tm] - kind, password (text value), archive,  *)
(* two numbers (params: object number, buffer length; byid: record id,     *)
(* amount; bytime: amount, unused) and a time.                             *)
(***************************************************************************)
GoodPassword(v) == v.t = "s" /\ Len(v.d) = 6 /\ \A i \in 1..6 : v.d[i] \in Byte
GoodNumber(v, w) == v.t = "i" /\ Fits(v.d, w)
GoodTime(v) == v.t = "tm" /\ Encodable(v.d)

PayloadEncodable(r) ==
  CASE r.k = "time"   -> TRUE
    [] r.k = "values" -> GoodPassword(r.pw)
    [] r.k = "write"  -> GoodPassword(r.pw) /\ GoodTime(r.tm)
    [] r.k = "params" -> GoodPassword(r.pw) /\ GoodNumber(r.x, 2) /\ GoodNumber(r.y, 2)
    [] r.k = "byid"   -> /\ GoodPassword(r.pw) /\ GoodNumber(r.a, 1)
                         /\ GoodNumber(r.x, 4) /\ GoodNumber(r.y, 2)
    [] r.k = "bytime" -> /\ GoodPassword(r.pw) /\ GoodNumber(r.a, 1)
                         /\ GoodNumber(r.x, 2) /\ GoodTime(r.tm)

PasswordField(v) == v.d \o <<Wild, Wild, Wild, Wild>>
SyncOnly == 4      \* flag bit: only synchronise the clock

Payload(r) ==
  CASE r.k = "time"   -> <<>>
    [] r.k = "values" -> PasswordField(r.pw)
    [] r.k = "write"  -> PasswordField(r.pw) \o TimeToBytes(r.tm.d) \o <<SyncOnly>>
    [] r.k = "params" -> PasswordField(r.pw) \o Widen(r.x.d, 2) \o Widen(r.y.d, 2)
    [] r.k = "byid"   -> PasswordField(r.pw) \o Widen(r.a.d, 1) \o Widen(r.x.d, 4) \o Widen(r.y.d, 2)
    [] r.k = "bytime" -> PasswordField(r.pw) \o Widen(r.a.d, 1) \o Widen(r.x.d, 2) \o TimeToBytes(r.tm.d)

Matches(p, s) == Len(p) = Len(s) /\ \A i \in 1..Len(p) : p[i] = Wild \/ p[i] = s[i]

(***************************************************************************)
(* Responses: decoding of the payload of a response to service svc.        *)
(* v: "ok" (fields f), "bad" (undecodable) or "free" (a length no device   *)
(* sends and about which nothing is promised).                             *)
(***************************************************************************)
Dec(verdict, fields) == [v |-> verdict, f |-> fields]
Archives == 0..10

DecodeValues(b) ==
  LET n == Len(b) IN
  IF n < 25 THEN Dec("bad", <<>>)
  ELSE IF ~ValidTimeBytes(SubSeq(b, 1, 6)) THEN Dec("bad", <<>>)
  ELSE LET t == SubSeq(b, 1, 6) IN
       Dec("ok", << Fld("current_time", VTime(TimeOf(t))),
                    Fld("is_dst", VInt(<<DstOf(t)>>)),
                    Fld("supports_dst", VInt(<<DstSupportedOf(t)>>)),
                    Fld("data", VBytes(SubSeq(b, 7, n - 19))),
                    Fld("data_access", VInt(<<b[n - 18]>>)),
                    Fld("status", VBytes(SubSeq(b, n - 17, n - 10))),
                    Fld("summary_status", VBytes(SubSeq(b, n - 9, n - 2))),
                    Fld("parameter_crc", VBytes(SubSeq(b, n - 1, n))) >>)

DecodeTime(b) ==
  LET n == Len(b) IN
  IF n < 6 THEN Dec("bad", <<>>)
  ELSE IF ~ValidTimeBytes(SubSeq(b, 1, 6)) THEN Dec("bad", <<>>)
  ELSE IF n < 9 THEN Dec("free", <<>>)
  ELSE LET t == SubSeq(b, 1, 6) IN
       Dec("ok", << Fld("time", VTime(TimeOf(t))),
                    Fld("is_dst", VInt(<<DstOf(t)>>)),
                    Fld("device_supports_dst", VInt(<<DstSupportedOf(t)>>)),
                    Fld("data_access_result", VBytes(SubSeq(b, 7, 7))),
                    Fld("extra_data", VBytes(SubSeq(b, 8, n - 2))) >>)

DecodeParams(b) ==
  IF Len(b) < 5 THEN Dec("bad", <<>>)
  ELSE Dec("ok", << Fld("object_number", VInt(SubSeq(b, 1, 2))),
                    Fld("object_amount", VInt(SubSeq(b, 3, 4))),
                    Fld("is_end", VInt(<<IF b[5] = 0 THEN 0 ELSE 1>>)),
                    Fld("data", VBytes(Drop(b, 5))) >>)

DecodeArchive(b) ==
  IF Len(b) < 5 THEN Dec("bad", <<>>)
  ELSE IF b[1] \notin Archives THEN Dec("bad", <<>>)
  ELSE Dec("ok", << Fld("archive", VInt(<<b[1]>>)),
                    Fld("oldest_record_id", VInt(SubSeq(b, 2, 5))),
                    Fld("data", VBytes(Drop(b, 5))) >>)

DecodeResponse(svc, b) ==
  CASE svc = SvcValues    -> DecodeValues(b)
    [] svc = SvcTime      -> DecodeTime(b)
    [] svc = SvcParams    -> DecodeParams(b)
    [] svc = SvcById      -> DecodeArchive(b)
    [] svc = SvcByTime    -> DecodeArchive(b)
    [] svc = SvcWriteTime -> Dec("ok", <<>>)

(***************************************************************************)
(* Device errors: a payload of one non-zero byte.                          *)
(***************************************************************************)
IsError(b) == Len(b) = 1 /\ b[1] # 0
LowestBit(e) == CHOOSE i \in 1..8 : /\ (e \div (2 ^ (i - 1))) % 2 = 1
                                    /\ \A j \in 1..(i - 1) : (e \div (2 ^ (j - 1))) % 2 = 0
ErrorOf(e) == ErrorNames[LowestBit(e)]
=============================================================================
