------------------------------ MODULE TraceCalls -----------------------------
(***************************************************************************)
(* Validation of recorded calls of the library's codecs: each recorded     *)
(* call must be the step its specification operator prescribes.            *)
(* A history is a sequence of independent calls; its verdict is "ok" or    *)
(* the number of the first call that is not, with the violated clause.     *)
(***************************************************************************)
EXTENDS Call, Frame, Cipher, Names, Json, IOUtils

Histories == JsonDeserialize(IOEnv.TRACE).h

VARIABLES tid, l, verdict
vars == <<tid, l, verdict>>

AnyError(o) == RaisedSomething(o)
Bytes(o, s) == o.k = "bytes" /\ o.d = s
B(cond, clause) == IF cond THEN "ok" ELSE clause

\* --- escaping -------------------------------------------------------------
Escaped(e) ==
  LET o == e.out IN
  IF e.d = <<>> \/ e.d[Len(e.d)] # EndChar THEN B(ValueErr(o), "escape-without-end-char")
  ELSE IF o.k # "bytes" THEN "escape-failed"
  ELSE IF IndexOf(o.d, EndChar) # Len(o.d) THEN "escape-end-char"
  ELSE IF Contains(o.d, TwinChar) THEN "escape-twin-char"
  ELSE IF Unescape(o.d) # e.d THEN "escape-not-transparent"
  ELSE B(o.d = Escape(e.d), "escape-result")
Unescaped(e) == B(Bytes(e.out, Unescape(e.d)), "unescape-result")

\* --- redundancy -----------------------------------------------------------
Redundant(e) ==
  B(e.out.k = "num" /\
    e.out.n = (CASE e.fn = "lrc" -> LRC(e.d) [] e.fn = "sum" -> SUM(e.d) [] e.fn = "drc" -> DRC(e.d)
                 [] e.fn = "crc" -> LET c == Crc16(e.d) IN 256 * (c % 256) + (c \div 256)),
    "redundancy-" \o e.fn)

\* A whole table: the value of e.d \o <<b>> for every byte b.
RedundantTable(e) ==
  B(e.out.k = "nums" /\ Len(e.out.n) = 256 /\
    \A b \in 0..255 : LET s == Append(e.d, b) IN
      e.out.n[b + 1] = (CASE e.fn = "lrc" -> LRC(s) [] e.fn = "sum" -> SUM(s) [] e.fn = "drc" -> DRC(s)
                          [] e.fn = "crc" -> LET c == Crc16(s) IN 256 * (c % 256) + (c \div 256)),
    "redundancy-" \o e.fn)

\* --- frames ---------------------------------------------------------------
FrameDecoded(e, types) ==
  LET v == FrameVerdict(e.d, types)
      o == e.out IN
  IF v # "ok" THEN B(ValueErr(o), "frame-accepted-bad-" \o v)
  ELSE IF o.k # "frame" THEN "frame-rejected"
  ELSE LET f == FrameOf(e.d) IN
    IF o.type # f.type THEN "frame-kind"
    ELSE IF o.svc # f.svc THEN "frame-service"
    ELSE IF o.d1 # Trim(f.d1) \/ o.d2 # Trim(<<f.d2>>) THEN "frame-destination"
    ELSE IF o.s1 # Trim(f.s1) \/ o.s2 # Trim(<<f.s2>>) THEN "frame-source"
    ELSE B(o.d = f.data, "frame-payload")

FrameFits(f) == GoodNumber(f.d1, 2) /\ GoodNumber(f.d2, 1) /\ GoodNumber(f.s1, 2)
                /\ GoodNumber(f.s2, 1) /\ Len(f.data) <= MaxData
FrameEncoded(e) ==
  IF ~FrameFits(e) THEN B(AnyError(e.out), "frame-encoded-out-of-range")
  ELSE LET w == EncodeFrame([type |-> e.type, svc |-> e.svc, data |-> e.data,
                    d1 |-> Widen(e.d1.d, 2), d2 |-> Widen(e.d2.d, 1)[1],
                    s1 |-> Widen(e.s1.d, 2), s2 |-> Widen(e.s2.d, 1)[1]]) IN
       IF e.out.k # "bytes" THEN "frame-encoding-failed"
       ELSE IF Len(e.out.d) # Len(w) THEN "frame-layout-length"
       ELSE B(e.out.d = w, "frame-layout")

\* --- time -----------------------------------------------------------------
TimeDecoded(e) ==
  IF ~ValidTimeBytes(e.d) THEN B(ValueErr(e.out), "time-accepted-bad")
  ELSE IF e.out.k # "time" THEN "time-rejected"
  ELSE IF e.out.tm # TimeOf(e.d) THEN "time-value"
  ELSE B(e.out.dst = DstOf(e.d) /\ e.out.sup = DstSupportedOf(e.d), "time-dst-flags")
TimeEncoded(e) ==
  IF ~Encodable(e.tm) THEN B(ValueErr(e.out), "time-encoded-out-of-range")
  ELSE B(Bytes(e.out, TimeToBytes(e.tm)), "time-encoding")

\* --- envelopes ------------------------------------------------------------
Sealed(e) ==
  LET o == e.out IN
  IF o.k # "bytes" THEN "seal-failed"
  ELSE LET p == Opened(e.key, e.kid, o.d) IN
       IF p.v # "ok" THEN "seal-" \o p.v
       ELSE IF p.data # e.data THEN "seal-payload"
       ELSE B(p.pad = PadLen(Len(e.data)), "seal-padding")
OpenedRight(e) ==
  LET p == Opened(e.key, e.kid, e.d) IN
  IF p.v # "ok" THEN B(ValueErr(e.out), "open-accepted-bad-" \o p.v)
  ELSE B(Bytes(e.out, p.data), "open-payload")

\* --- requests and responses -----------------------------------------------
RequestEncoded(e) ==
  IF ~PayloadEncodable(e.req) THEN B(AnyError(e.out), "request-encoded-unencodable")
  ELSE B(e.out.k = "bytes" /\ Matches(Payload(e.req), e.out.d), "request-payload")
ResponseDecoded(e) ==
  LET d == DecodeResponse(e.svc, e.d)
      o == e.out IN
  CASE d.v = "free" -> "free"
    [] d.v = "bad"  -> B(AnyError(o), "response-decoded-undecodable")
    [] d.v = "ok"   ->
       IF o.k # "pdu" THEN "response-rejected"
       ELSE IF o.svc # e.svc THEN "response-class"
       ELSE LET x == FirstDisagreement(d.f, o.f) IN B(x = "", "response-field-" \o x)

\* --- parameter streams ----------------------------------------------------
StreamDecoded(e) ==
  LET d == TLCEval(DecodeStream(e.d))
      o == e.out IN
  CASE d.v = "free" -> "free"
    [] d.v = "bad"  -> B(AnyError(o), "stream-accepted-bad")
    [] d.v = "ok"   ->
       IF o.k # "objs" THEN "stream-rejected"
       ELSE IF Len(o.o) # Len(d.o) THEN "stream-object-count"
       ELSE IF \E i \in 1..Len(d.o) : o.o[i].cls # d.o[i].cls THEN "stream-object-class"
       ELSE LET bad == {i \in 1..Len(d.o) : FirstDisagreement(d.o[i].f, o.o[i].f) # ""} IN
            IF bad = {} THEN "ok"
            ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN
                 "field-" \o d.o[i].cls \o "." \o FirstDisagreement(d.o[i].f, o.o[i].f)

\* --- call messages --------------------------------------------------------
CallDecoded(e) ==
  LET d == TLCEval(DecodeCall(e.d))
      o == e.out IN
  IF d.v # "ok" THEN B(AnyError(o), "call-accepted-bad")
  ELSE IF o.k # "fields" THEN "call-rejected"
  ELSE LET x == FirstDisagreement(d.f, o.f) IN B(x = "", "call-field-" \o x)

\* The acknowledgement is an empty response to the service, from the called to the caller.
CallAnswered(e) ==
  B(Bytes(e.out, EncodeFrame([type |-> TResponse, svc |-> SvcCall, data |-> <<>>,
        d1 |-> Widen(e.d1.d, 2), d2 |-> Widen(e.d2.d, 1)[1],
        s1 |-> Widen(e.s1.d, 2), s2 |-> Widen(e.s2.d, 1)[1]])), "call-acknowledgement")

\* --- names ----------------------------------------------------------------
\* e.out.v: the number the library knows by the name e.n in its enumeration e.t.
Named(e) == B(e.out.k = "value" /\ e.out.v = VInt(LE(NameTables[e.t][e.n], 1)), "name-" \o e.n)

\* --- exported configuration -----------------------------------------------
\* The object of type e.type decoded from e.body; `obj` what the library
\* decoded, `back` what came out of dump -> JSON -> load, `doc` the same
\* inside a configuration document.
Reloaded(e) ==
  IF e.type \notin DOMAIN Types THEN "export-unknown-type"
  ELSE IF e.out.k # "export" THEN "export-failed"
  ELSE LET t == Types[e.type]
           d == TLCEval(DecodeRecord(t.layout, e.body))
           same(o) == o.cls = t.cls /\ Len(o.f) = Len(e.out.obj.f)
           x == FirstDisagreement(d.f, e.out.back.f)
           y == FirstDisagreement(d.f, e.out.doc.f) IN
       IF d.v # "ok" THEN "free"
       ELSE IF ~same(e.out.back) \/ ~same(e.out.doc) THEN "export-class"
       ELSE IF x # "" THEN "export-field-" \o t.cls \o "." \o x
       ELSE IF y # "" THEN "export-document-field-" \o t.cls \o "." \o y
       ELSE IF e.out.back.f # e.out.obj.f \/ e.out.doc.f # e.out.obj.f THEN "export-changed"
       ELSE B(e.out.equal = 1, "export-not-equal")

Verdict(e) ==
  CASE e.op = "esc"    -> Escaped(e)
    [] e.op = "unesc"  -> Unescaped(e)
    [] e.op = "red"    -> Redundant(e)
    [] e.op = "redtab" -> RedundantTable(e)
    [] e.op = "resp"   -> FrameDecoded(e, {TResponse, TEncResponse})
    [] e.op = "dec"    -> FrameDecoded(e, {e.type})
    [] e.op = "enc"    -> FrameEncoded(e)
    [] e.op = "todt"   -> TimeDecoded(e)
    [] e.op = "fromdt" -> TimeEncoded(e)
    [] e.op = "seal"   -> Sealed(e)
    [] e.op = "open"   -> OpenedRight(e)
    [] e.op = "req"    -> RequestEncoded(e)
    [] e.op = "pdu"    -> ResponseDecoded(e)
    [] e.op = "params" -> StreamDecoded(e)
    [] e.op = "call"   -> CallDecoded(e)
    [] e.op = "callresp" -> CallAnswered(e)
    [] e.op = "name" -> Named(e)
    [] e.op = "export" -> Reloaded(e)

Init == tid \in 1..Len(Histories) /\ l = 1 /\ verdict = "ok"
Finish(v, n) == PrintT(<<"VERDICT", tid, n, v>>)

Next ==
  /\ verdict = "ok"
  /\ IF l > Len(Histories[tid].ev)
     THEN verdict' = "done" /\ Finish("ok", l - 1) /\ UNCHANGED <<tid, l>>
     ELSE LET v == TLCEval(Verdict(Histories[tid].ev[l])) IN
          /\ verdict' = v
          /\ l' = l + 1
          /\ UNCHANGED tid
          /\ (v # "ok" => Finish(v, l))

Spec == Init /\ [][Next]_vars
=============================================================================
