------------------------------ MODULE MCEscapeAny ----------------------------
(* The transparency layer for telegrams of every length over all 256 bytes. *)
(* Encoder and decoder run side by side; of what the decoder has put out    *)
(* only the part that is ahead of the encoder's input is kept, so there are *)
(* finitely many states, and the invariants hold after any number of bytes. *)
EXTENDS Escape, TLC
VARIABLES dec,   \* the decoder, out: what it has put out for the last byte
          last,  \* the last byte of the telegram (-1: none yet)
          wire   \* what is on the wire for it
vars == <<dec, last, wire>>
Init == dec = UnescInit /\ last = -1 /\ wire = <<>>
Feed(b) == /\ last' = b
           /\ wire' = EscByte(b)
           /\ dec' = FoldLeft(UnescStep, [dec EXCEPT !.out = <<>>], EscByte(b))
Next == \E b \in Byte : Feed(b)
Spec == Init /\ [][Next]_vars

\* For each byte exactly this byte comes out, and no escape is left open.
InStep == last # -1 => dec = [esc |-> FALSE, out |-> <<last>>]
NoReserved == ~Contains(wire, EndChar) /\ ~Contains(wire, TwinChar)
\* The end character itself, sent bare, comes out as the end of the telegram.
EndsThere == ~dec.esc /\ UnescStep([dec EXCEPT !.out = <<>>], EndChar) = [esc |-> FALSE, out |-> <<EndChar>>]
\* No two bytes are written alike, and none as the beginning of another.
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
ASSUME \A a, b \in Byte : Prefix(EscByte(a), EscByte(b)) => a = b
=============================================================================
