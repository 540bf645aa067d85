------------------------------- MODULE MCPaging ------------------------------
(***************************************************************************)
(* A client reading the parameters of a device, page by page.  The device  *)
(* has Count objects numbered from Base; it decides freely how many        *)
(* objects a page announces, where in the byte stream the page is cut      *)
(* (also inside an object), and may misbehave: announce nothing, repeat a  *)
(* page with the wrong service, report an error, stay silent.              *)
(***************************************************************************)
EXTENDS Client, Json, TLC

CONSTANTS Count, Base, Starts, Emit, Cuts

Num(n) == VInt(LE(n, 3))
Cfg == [d1 |-> Num(0), d2 |-> Num(0), s1 |-> Num(0), s2 |-> Num(0), key |-> <<>>, kid |-> 0]
Pw == VText(<<97, 98, 99, 100, 101, 102>>)
Object(n) == Record(31, [i \in 1..MinLength(Types[31].layout) |-> (n + i * 5) % 251])
Size == Len(Object(0))
Store == [i \in 1..Count |-> Object(Base + i - 1)]

Rsp(svc, data) == Escape(EncodeFrame([type |-> TResponse, svc |-> svc, d1 |-> <<0, 0>>, d2 |-> 0,
                                      s1 |-> <<0, 0>>, s2 |-> 0, data |-> data]))
PageOf(number, amount, end, data) == Rsp(SvcParams, LE(number, 2) \o LE(amount, 2) \o <<end>> \o data)

\* pos: objects already announced; sent: bytes of the stream already sent.
VARIABLES c, from, pos, sent, asked, pages, over
vars == <<c, from, pos, sent, asked, pages, over>>

\* 100 + k: the page is cut k bytes before its last object ends.
Shift(k) == IF k > 100 THEN 100 - k ELSE k
Stream == FlattenSeq([i \in 1..Count |-> Store[i]])
AskedNumber == LEVal(c.req.x.d)

Init == /\ from \in Starts
        /\ c = Begin(NewClient(Cfg, Pw), [NoReq EXCEPT !.k = "params", !.x = Num(from)])
        /\ pos = from - Base /\ sent = (from - Base) * Size
        /\ asked = <<>> /\ pages = <<>> /\ over = FALSE
Request == /\ c.ph = "write"
           /\ c' = Wrote(c)
           /\ asked' = Append(asked, AskedNumber)
           /\ UNCHANGED <<from, pos, sent, pages, over>>
Answered(bytes, p) == /\ c' = Got(c, bytes)
                      /\ pages' = Append(pages, p)
                      /\ (Emit /\ c'.ph = "done" => PrintT("TEST " \o ToJson([from |-> from, pages |-> pages'])))
Honest == /\ c.ph = "read" /\ Len(asked) > Len(pages) /\ ~over
          /\ \E amount \in 1..(Count - pos) : \E k \in Cuts :
               LET end == pos + amount = Count
                   upto == IF end THEN Count * Size ELSE (pos + amount) * Size + Shift(k)
                   data == SubSeq(Stream, sent + 1, upto) IN
               /\ upto <= Count * Size /\ upto >= sent
               /\ (end => k = 0)
               /\ Answered(PageOf(Base + pos, amount, IF end THEN 1 ELSE 0, data),
                           [k |-> "page", number |-> Base + pos, amount |-> amount,
                            end |-> IF end THEN 1 ELSE 0, data |-> data])
               /\ pos' = pos + amount /\ sent' = upto /\ over' = end
          /\ UNCHANGED <<from, asked>>
\* the end may also come on a page of its own
EmptyEnd == /\ c.ph = "read" /\ Len(asked) > Len(pages) /\ pos = Count - 1 /\ sent < Count * Size
            /\ LET data == SubSeq(Stream, sent + 1, Count * Size) IN
               /\ Answered(PageOf(Base + pos, 0, 7, data),
                           [k |-> "page", number |-> Base + pos, amount |-> 0, end |-> 7, data |-> data])
               /\ pos' = Count /\ sent' = Count * Size /\ over' = TRUE
            /\ UNCHANGED <<from, asked>>
Stuck == /\ c.ph = "read" /\ Len(asked) > Len(pages)
         /\ Answered(PageOf(Base + pos, 0, 0, <<>>),
                     [k |-> "page", number |-> Base + pos, amount |-> 0, end |-> 0, data |-> <<>>])
         /\ over' = TRUE /\ UNCHANGED <<from, pos, sent, asked>>
Broken == /\ c.ph = "read" /\ Len(asked) > Len(pages)
          /\ \E x \in {"error", "foreign", "fail"} :
               IF x = "fail" THEN /\ c' = LinkFailed(c, "CommunicationError")
                                  /\ pages' = Append(pages, [k |-> x])
                                  /\ (Emit => PrintT("TEST " \o ToJson([from |-> from, pages |-> pages'])))
               ELSE Answered(IF x = "error" THEN Rsp(SvcParams, <<1>>) ELSE Rsp(101, <<1, 2>>), [k |-> x])
          /\ over' = TRUE /\ UNCHANGED <<from, pos, sent, asked>>
Next == Request \/ Honest \/ EmptyEnd \/ Stuck \/ Broken
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* --- the properties, of the design -------------------------------------- *)
\* The first request names the caller's object, every other the object after
\* the last one received, and none comes after the end.
Contiguous ==
  \A i \in 1..Len(asked) :
    asked[i] = from + FoldLeft(LAMBDA a, p : a + (IF p.k = "page" THEN p.amount ELSE 0), 0, SubSeq(pages, 1, i - 1))
NothingAfterEnd == over => c.ph = "done" /\ Len(asked) = Len(pages)
\* A read-out that succeeds returns all objects from the start on, in order.
Complete == c.ph = "done" /\ c.want.k = "objs" =>
  /\ sent = Count * Size
  /\ c.want.o = DecodeStream(SubSeq(Stream, (from - Base) * Size + 1, Count * Size)).o
  /\ Len(c.want.o) = Count - (from - Base)
OnlyWhenFinished == c.ph = "done" => c.want.k = "objs" \/ pages[Len(pages)].k # "page"
                                     \/ pages[Len(pages)].amount = 0
Terminates == <>(c.ph = "done")
=============================================================================
