------------------------------- MODULE MCStream ------------------------------
(***************************************************************************)
(* The parameter stream: a device writes its objects one after the other   *)
(* and something may happen to the stream afterwards.  What is read is     *)
(* compared with what was written, not with another reading.               *)
(* Every state is a test for the parser.                                   *)
(***************************************************************************)
EXTENDS Layouts, FiniteSets, Json
CONSTANT N

\* A body of n bytes for this type: no two objects of a stream are alike.
\* What is read as a floating point number is none that is no number.
Body(t, n, salt) == [i \in 1..n |-> 33 + ((17 * i + 29 * salt + t) % 61)]

\* The types with the shortest records, one with rows, one with an optional tail.
Kinds == {<<65, 0>>, <<65, 1>>, <<61, 0>>, <<62, 0>>, <<48, 0>>}
Sizes(t) == {MinLength(Types[t].layout), MaxLength(Types[t].layout)}
HasRows(t) == \E i \in 1..Len(Types[t].layout) : Types[t].layout[i].k = "rows"
Rec(t, tail, salt) ==
  LET n == IF tail = 1 THEN MaxLength(Types[t].layout) ELSE MinLength(Types[t].layout)
      b == Body(t, n, salt) IN
  [type |-> t, body |-> IF HasRows(t) THEN [b EXCEPT ![MinLength(Types[t].layout)] = 0] ELSE b]

VARIABLES objects, stream, damage
vars == <<objects, stream, damage>>
Init == objects = <<>> /\ stream = <<>> /\ damage = "none"
Write == /\ damage = "none" /\ Len(objects) < N
         /\ \E k \in Kinds :
              LET r == Rec(k[1], k[2], Len(objects)) IN
              /\ objects' = Append(objects, r)
              /\ stream' = stream \o Record(r.type, r.body)
         /\ UNCHANGED damage
Starts == {1 + FoldLeft(LAMBDA a, r : a + Len(r.body) + RecordHeader, 0, SubSeq(objects, 1, k)) : k \in 0..(Len(objects) - 1)}
Inside == {i \in 1..Len(stream) : i + 1 \notin Starts /\ i # Len(stream)}
\* The read-out ends in the middle of an object,
Cut == /\ damage = "none"
       /\ \E n \in Inside :
            /\ n \in {s - 1 + d : s \in Starts, d \in {1, 2, 3, 4}} \cup {Len(stream) - 1}
            /\ stream' = SubSeq(stream, 1, n)
       /\ damage' = "cut" /\ UNCHANGED objects
\* a length is too small for a record or goes beyond the end of the stream,
Short == /\ damage = "none"
         /\ \E s \in Starts, n \in 0..2 : stream' = [stream EXCEPT ![s] = n, ![s + 1] = 0]
         /\ damage' = "short" /\ UNCHANGED objects
Beyond == /\ damage = "none"
          /\ \E s \in Starts : stream' = [stream EXCEPT ![s + 1] = @ + 128]
          /\ damage' = "beyond" /\ UNCHANGED objects
\* or there is an object of a type that does not exist.
Unknown == /\ damage = "none"
           /\ \E s \in Starts, t \in {0, 29, 66, 142, 255} : stream' = [stream EXCEPT ![s + 2] = t]
           /\ damage' = "unknown" /\ UNCHANGED objects
Next == Write \/ Cut \/ Short \/ Beyond \/ Unknown
Spec == Init /\ [][Next]_vars

Read == Split(stream)
\* An undamaged stream gives the records that were written, from their own bytes.
Exact == damage = "none" => Read = [v |-> "ok", p |-> Len(stream) + 1, r |-> objects]
\* One object for each, of its class.
OneEach == damage = "none" /\ objects # <<>> =>
             LET d == TLCEval(DecodeStream(stream)) IN
             /\ d.v = "ok" /\ Len(d.o) = Len(objects)
             /\ \A i \in 1..Len(objects) :
                  /\ d.o[i].cls = Types[objects[i].type].cls
                  /\ d.o[i].f = DecodeRecord(Types[objects[i].type].layout, objects[i].body).f
\* A damaged one is refused as a whole, and so is an empty one.
Refused == damage # "none" \/ stream = <<>> => DecodeStream(stream).v = "bad"
Emitted == PrintT("TEST " \o ToJson([d |-> stream, damage |-> damage]))
=============================================================================
