----------------------------- MODULE MCRedundancy ----------------------------
(* A changed byte changes each of the check values, for frames of every     *)
(* length.  Two copies of a frame pass through the same check value side by *)
(* side: equal up to the changed byte, then different there (Differ), then  *)
(* equal again.  The values are different after the changed byte (Splits)   *)
(* and stay different after any number of equal bytes (Keeps).              *)
EXTENDS Redundancy, TLC, FiniteSets
CONSTANT Bytes0  \* the bytes with which Keeps is checked for the CRC

Lrc(a, b) == a ^^ b
Sum(a, b) == (a + b) % 256
Drc(a, b) == (((a * 2) % 256) + (a \div 128)) ^^ b
Crc(c, b) == (c \div 256) ^^ CrcTable[(c ^^ b) % 256]

\* These are the steps of the check values of Redundancy.
Samples == {<<>>, <<0>>, <<255>>, <<1, 128>>, <<128, 1>>, <<170, 85, 3>>, <<13, 27, 141, 14, 15>>}
ASSUME \A s \in Samples, b \in {0, 1, 127, 128, 255} :
  /\ LRC(Append(s, b)) = Lrc(LRC(s), b)
  /\ SUM(Append(s, b)) = Sum(SUM(s), b)
  /\ DRC(Append(s, b)) = Drc(DRC(s), b)
  /\ Crc16(Append(s, b)) = Crc(Crc16(s), b)

Splits(Step(_, _), Values) == \A a \in Values : Cardinality({Step(a, b) : b \in Byte}) = 256
Keeps(Step(_, _), Values, Some) == \A b \in Some : Cardinality({Step(a, b) : a \in Values}) = Cardinality(Values)

ASSUME Splits(Lrc, Byte) /\ Keeps(Lrc, Byte, Byte)
ASSUME Splits(Sum, Byte) /\ Keeps(Sum, Byte, Byte)
ASSUME Splits(Drc, Byte) /\ Keeps(Drc, Byte, Byte)
\* The CRC's step depends on its value and the byte through c xor b only, so one byte does for Keeps.
ASSUME \A c \in {0, 1, 255, 256, 4660, 65535}, b \in Byte : Crc(c, b) = (c \div 256) ^^ CrcTable[(c % 256) ^^ b]
ASSUME Keeps(Crc, 0..65535, Bytes0)
ASSUME Splits(Crc, {256 * h + l : h \in {0, 1, 127, 128, 255}, l \in Byte})

\* Two neighbours changing places are seen by DRC, unless they are equal or each other's complement.
ASSUME \A a, x, y \in {0, 1, 2, 64, 85, 127, 128, 170, 254} :
  x # y => (Drc(Drc(a, x), y) # Drc(Drc(a, y), x) \/ (x ^^ y) = 255)

\* A pair of values, moved on by equal bytes.
VARIABLES one, other
Init == one \in Byte /\ other \in {(one + 1) % 256, one ^^ 128, one ^^ 255}
Next == \E b \in {0, 13, 255} : one' = Drc(one, b) /\ other' = Drc(other, b)
Spec == Init /\ [][Next]_<<one, other>>
Differ == one # other
=============================================================================
