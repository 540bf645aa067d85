------------------------------ MODULE Redundancy -----------------------------
(***************************************************************************)
(* The check values: LRC (xor), SUM (sum modulo 256) and DRC (rotate left  *)
(* and xor) of a frame, CRC-16/MODBUS of an encrypted envelope.            *)
(***************************************************************************)
EXTENDS Bytes

LRC(s) == FoldLeft(LAMBDA acc, b : acc ^^ b, 0, s)
SUM(s) == FoldLeft(LAMBDA acc, b : (acc + b) % 256, 0, s)
DRC(s) == FoldLeft(LAMBDA acc, b : (((acc * 2) % 256) + (acc \div 128)) ^^ b, 0, s)

\* CRC-16 with the reflected polynomial A001, initial value FFFF.
CrcBit(c) == IF c % 2 = 1 THEN (c \div 2) ^^ 40961 ELSE c \div 2
CrcTable == [b \in Byte |-> CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(b))))))))]
Crc16(s) == FoldLeft(LAMBDA c, b : (c \div 256) ^^ CrcTable[(c ^^ b) % 256], 65535, s)
\* On the wire: low byte first.
CrcBytes(s) == LET c == Crc16(s) IN <<c % 256, c \div 256>>
=============================================================================
