-------------------------------- MODULE Bytes --------------------------------
(***************************************************************************)
(* Byte strings as sequences over 0..255, and numbers wider than TLC's     *)
(* 32-bit integers as little-endian digit sequences in base 256.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

Byte == 0..255

\* First index of byte x in s, 0 if there is none.
IndexOf(s, x) == SelectInSeq(s, LAMBDA y : y = x)

Take(s, k) == SubSeq(s, 1, IF k < 0 THEN 0 ELSE IF k > Len(s) THEN Len(s) ELSE k)
Drop(s, k) == SubSeq(s, k + 1, Len(s))
LastN(s, k) == SubSeq(s, Len(s) - k + 1, Len(s))

\* n < 2^31 as w little-endian bytes.
LE(n, w) == [i \in 1..w |-> (n \div (256 ^ (i - 1))) % 256]

\* Value of at most three little-endian bytes (fits TLC's integers).
LEVal(s) == FoldRight(LAMBDA b, acc : b + 256 * acc, s, 0)

\* Canonical form of a little-endian number of any width: no zero digits on top.
RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s
           ELSE IF s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* A canonical number written in exactly w bytes; only if it fits.
Fits(d, w) == Len(d) <= w
Widen(d, w) == [i \in 1..w |-> IF i <= Len(d) THEN d[i] ELSE 0]

\* Long division of a little-endian number by m (m <= 2^23): [q, r], q canonical.
DivMod(d, m) ==
  LET step(acc, b) == LET x == acc.r * 256 + b
                      IN [q |-> <<x \div m>> \o acc.q, r |-> x % m]
      res == FoldLeft(step, [q |-> <<>>, r |-> 0], Reverse(d))
  IN [q |-> Trim(res.q), r |-> res.r]

\* Decimal text (ASCII codes) of a little-endian number.
RECURSIVE DecimalDigits(_)
DecimalDigits(d) ==
  LET x == DivMod(d, 10) IN
  IF x.q = <<>> THEN <<48 + x.r>> ELSE Append(DecimalDigits(x.q), 48 + x.r)
Decimal(d) == DecimalDigits(Trim(d))

\* Decimal text of a small natural number.
DecimalNat(n) == Decimal(LE(n, 3))

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexText(s) == FlattenSeq([i \in 1..Len(s) |-> <<HexDigit(s[i] \div 16), HexDigit(s[i] % 16)>>])

\* p occurs in s as a contiguous block.
OccursIn(p, s) ==
  /\ p # <<>>
  /\ \E i \in 1..(Len(s) - Len(p) + 1) :
        /\ s[i] = p[1]
        /\ \A j \in 2..Len(p) : s[i + j - 1] = p[j]
=============================================================================
