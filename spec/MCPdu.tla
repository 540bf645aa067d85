--------------------------------- MODULE MCPdu -------------------------------
(***************************************************************************)
(* Payloads.  Every byte of a response belongs to one field of what it     *)
(* decodes to, counted from the front or from the end; and two requests    *)
(* that differ in a value differ in their payload, so that the device can  *)
(* tell them apart.                                                        *)
(***************************************************************************)
EXTENDS Pdu, TLC, FiniteSets
CONSTANTS Extra, Masks

Base(svc, len) ==
  [i \in 1..len |-> IF svc \in {SvcValues, SvcTime} /\ i <= 6 THEN <<18, 18, 18, 18, 18, 18>>[i]
                    ELSE IF svc \in {SvcById, SvcByTime} /\ i = 1 THEN 4 ELSE 37 + i]
Shortest(svc) == CASE svc = SvcValues -> 25 [] svc = SvcTime -> 9 [] svc = SvcWriteTime -> 0 [] OTHER -> 5

\* The fields the bits mask of byte i of len bytes belong to.
Owner(svc, i, mask, len) ==
  CASE svc \in {SvcValues, SvcTime} /\ i = 3 /\ mask = 64 ->
         {IF svc = SvcTime THEN "device_supports_dst" ELSE "supports_dst"}
    [] svc \in {SvcValues, SvcTime} /\ i = 3 /\ mask = 128 -> {"is_dst"}
    [] svc = SvcValues -> {IF i <= 6 THEN "current_time"
                           ELSE IF i > len - 2 THEN "parameter_crc"
                           ELSE IF i > len - 10 THEN "summary_status"
                           ELSE IF i > len - 18 THEN "status"
                           ELSE IF i = len - 18 THEN "data_access" ELSE "data"}
    [] svc = SvcTime -> IF i <= 6 THEN {"time"} ELSE IF i = 7 THEN {"data_access_result"}
                        ELSE IF i > len - 2 THEN {} ELSE {"extra_data"}
    [] svc = SvcParams -> IF i <= 2 THEN {"object_number"} ELSE IF i <= 4 THEN {"object_amount"}
                          ELSE IF i = 5 THEN {} ELSE {"data"}  \* any value but 0 is the end
    [] svc \in {SvcById, SvcByTime} -> {IF i = 1 THEN "archive" ELSE IF i <= 5 THEN "oldest_record_id" ELSE "data"}

\* Requests over a few values of each kind.
Passwords == {VText(<<48, 48, 48, 48, 48, 48>>), VText(<<48, 48, 48, 48, 48, 255>>), VText(<<13, 27, 141, 14, 15, 32>>)}
Numbers == {<<>>, <<1>>, <<0, 1>>, <<1, 1>>, <<255, 255>>}
Times == {<<2000, 1, 1, 0, 0, 0>>, <<2001, 1, 1, 0, 0, 0>>, <<2000, 2, 1, 0, 0, 0>>, <<2000, 1, 2, 0, 0, 0>>,
          <<2000, 1, 1, 1, 0, 0>>, <<2000, 1, 1, 0, 1, 0>>, <<2000, 1, 1, 0, 0, 1>>, <<2099, 12, 31, 23, 59, 59>>}
Num(d) == [t |-> "i", d |-> d]
Req(k, pw, a, x, y, tm) == [k |-> k, pw |-> pw, a |-> a, x |-> x, y |-> y, tm |-> tm]
None == Num(<<>>)
Requests ==
  {Req("time", VText(<<>>), None, None, None, None)}
  \cup {Req("values", w, None, None, None, None) : w \in Passwords}
  \cup {Req("write", w, None, None, None, VTime(tm)) : w \in Passwords, tm \in Times}
  \cup {Req("params", w, None, Num(x), Num(y), None) : w \in Passwords, x \in Numbers, y \in Numbers}
  \cup {Req("byid", w, Num(a), Num(x), Num(y), None) : w \in Passwords, a \in {<<>>, <<1>>, <<10>>}, x \in Numbers \cup {<<0, 0, 1>>, <<0, 0, 0, 1>>}, y \in Numbers}
  \cup {Req("bytime", w, Num(a), Num(x), None, VTime(tm)) : w \in Passwords, a \in {<<>>, <<1>>}, x \in {<<1>>, <<0, 1>>}, tm \in Times}

VARIABLES job, whole
vars == <<job, whole>>
Init ==
  \/ /\ job \in UNION {UNION {[k : {"response"}, svc : {s}, b : {Base(s, len)}, p : 1..len, mask : Masks] : len \in {Shortest(s) + e : e \in Extra}}
                       : s \in RequestServices \ {SvcWriteTime}}
     /\ whole = TLCEval(DecodeResponse(job.svc, job.b))
  \/ /\ job \in [k : {"request"}, r : Requests]
     /\ whole = Payload(job.r)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* A time that is changed is another time or none.
Own ==
  job.k = "response" =>
    LET len == Len(job.b)
        g == TLCEval(DecodeResponse(job.svc, [job.b EXCEPT ![job.p] = @ ^^ job.mask]))
        flags == job.p = 3 /\ job.mask \in {64, 128} IN
    /\ whole.v = "ok"
    /\ IF g.v = "ok" THEN {whole.f[i].n : i \in {i \in 1..Len(g.f) : whole.f[i] # g.f[i]}} = Owner(job.svc, job.p, job.mask, len)
       ELSE \/ job.svc \in {SvcValues, SvcTime} /\ job.p <= 6 /\ ~flags
            \/ job.svc \in {SvcById, SvcByTime} /\ job.p = 1
Short == job.k = "response" =>
  \A n \in 0..(Shortest(job.svc) - 1) :
    DecodeResponse(job.svc, SubSeq(job.b, 1, n)).v = IF job.svc = SvcTime /\ n \in 6..8 THEN "free" ELSE "bad"
\* No two requests of a kind are alike on the wire, and none is as long as a device error.
Apart == job.k = "request" =>
  /\ PayloadEncodable(job.r)
  /\ Len(whole) # 1
  /\ \A q \in Requests : q.k = job.r.k /\ q # job.r => Payload(q) # whole
=============================================================================
