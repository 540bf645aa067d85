------------------------------- MODULE MCEscape ------------------------------
(* The transparency layer, for every body over an alphabet of length <= N.  *)
(* The state is the telegram fed through encoder and decoder byte by byte.  *)
EXTENDS Escape, TLC
CONSTANTS Alphabet, N
VARIABLES body, wire, dec
Init == body = <<>> /\ wire = <<>> /\ dec = UnescInit
Feed(b) == /\ Len(body) < N
           /\ body' = Append(body, b)
           /\ wire' = wire \o EscByte(b)
           /\ dec' = FoldLeft(UnescStep, dec, EscByte(b))
Next == \E b \in Alphabet : Feed(b)
Spec == Init /\ [][Next]_<<body, wire, dec>>

\* The decoder is never left inside an escape and has exactly what was sent.
InStep == dec = [esc |-> FALSE, out |-> body]
NoReserved == ~Contains(wire, EndChar) /\ ~Contains(wire, TwinChar)
Whole == Transparent(Append(body, EndChar))
\* Different telegrams are different on the wire (follows from InStep).
=============================================================================
