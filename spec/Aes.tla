--------------------------------- MODULE Aes ---------------------------------
(***************************************************************************)
(* AES-128 (FIPS 197) in CBC mode, written out so that the model checker   *)
(* can look inside encrypted telegrams.  A block is a sequence of 16 bytes *)
(* in the order of the standard: column by column.                         *)
(***************************************************************************)
EXTENDS Bytes, TLC

SBoxSeq == <<
    99, 124, 119, 123, 242, 107, 111, 197,  48,   1, 103,  43, 254, 215, 171, 118,
   202, 130, 201, 125, 250,  89,  71, 240, 173, 212, 162, 175, 156, 164, 114, 192,
   183, 253, 147,  38,  54,  63, 247, 204,  52, 165, 229, 241, 113, 216,  49,  21,
     4, 199,  35, 195,  24, 150,   5, 154,   7,  18, 128, 226, 235,  39, 178, 117,
     9, 131,  44,  26,  27, 110,  90, 160,  82,  59, 214, 179,  41, 227,  47, 132,
    83, 209,   0, 237,  32, 252, 177,  91, 106, 203, 190,  57,  74,  76,  88, 207,
   208, 239, 170, 251,  67,  77,  51, 133,  69, 249,   2, 127,  80,  60, 159, 168,
    81, 163,  64, 143, 146, 157,  56, 245, 188, 182, 218,  33,  16, 255, 243, 210,
   205,  12,  19, 236,  95, 151,  68,  23, 196, 167, 126,  61, 100,  93,  25, 115,
    96, 129,  79, 220,  34,  42, 144, 136,  70, 238, 184,  20, 222,  94,  11, 219,
   224,  50,  58,  10,  73,   6,  36,  92, 194, 211, 172,  98, 145, 149, 228, 121,
   231, 200,  55, 109, 141, 213,  78, 169, 108,  86, 244, 234, 101, 122, 174,   8,
   186, 120,  37,  46,  28, 166, 180, 198, 232, 221, 116,  31,  75, 189, 139, 138,
   112,  62, 181, 102,  72,   3, 246,  14,  97,  53,  87, 185, 134, 193,  29, 158,
   225, 248, 152,  17, 105, 217, 142, 148, 155,  30, 135, 233, 206,  85,  40, 223,
   140, 161, 137,  13, 191, 230,  66, 104,  65, 153,  45,  15, 176,  84, 187,  22 >>
SBox == [x \in Byte |-> SBoxSeq[x + 1]]
InvSBox == [y \in Byte |-> CHOOSE x \in Byte : SBoxSeq[x + 1] = y]

\* Arithmetic in GF(2^8) modulo x^8 + x^4 + x^3 + x + 1.
XTime(a) == IF a < 128 THEN 2 * a ELSE (2 * a - 256) ^^ 27
Mul2 == [a \in Byte |-> XTime(a)]
Mul3 == [a \in Byte |-> XTime(a) ^^ a]
Mul4(a) == XTime(XTime(a))
Mul8(a) == XTime(Mul4(a))
Mul9 == [a \in Byte |-> Mul8(a) ^^ a]
Mul11 == [a \in Byte |-> (Mul8(a) ^^ XTime(a)) ^^ a]
Mul13 == [a \in Byte |-> (Mul8(a) ^^ Mul4(a)) ^^ a]
Mul14 == [a \in Byte |-> (Mul8(a) ^^ Mul4(a)) ^^ XTime(a)]

XorSeq(s, t) == [i \in 1..Len(s) |-> s[i] ^^ t[i]]

RCon == <<1, 2, 4, 8, 16, 32, 64, 128, 27, 54>>

\* The eleven round keys of a key, as blocks.
NextRoundKey(k, r) ==
  LET w0 == <<(k[1] ^^ SBox[k[14]]) ^^ RCon[r], k[2] ^^ SBox[k[15]],
              k[3] ^^ SBox[k[16]], k[4] ^^ SBox[k[13]]>>
      w1 == XorSeq(w0, SubSeq(k, 5, 8))
      w2 == XorSeq(w1, SubSeq(k, 9, 12))
      w3 == XorSeq(w2, SubSeq(k, 13, 16))
  IN TLCEval(w0 \o w1 \o w2 \o w3)
RoundKeys(key) == FoldLeft(LAMBDA ks, r : Append(ks, NextRoundKey(ks[r], r)),
                           <<key>>, [i \in 1..10 |-> i])

\* Row r (0..3) of column c (0..3) is byte 4c + r + 1.
At(r, c) == 4 * (c % 4) + r + 1
ShiftRowsFrom == [i \in 1..16 |-> LET r == (i - 1) % 4  c == (i - 1) \div 4 IN At(r, c + r)]
InvShiftRowsFrom == [i \in 1..16 |-> LET r == (i - 1) % 4  c == (i - 1) \div 4 IN At(r, c + 4 - r)]

SubShift(b) == [i \in 1..16 |-> SBox[b[ShiftRowsFrom[i]]]]
InvSubShift(b) == [i \in 1..16 |-> InvSBox[b[InvShiftRowsFrom[i]]]]

MixColumns(b) ==
  [i \in 1..16 |->
     LET r == (i - 1) % 4  c == (i - 1) \div 4 IN
     ((Mul2[b[At(r, c)]] ^^ Mul3[b[At((r + 1) % 4, c)]]) ^^ b[At((r + 2) % 4, c)])
        ^^ b[At((r + 3) % 4, c)]]
InvMixColumns(b) ==
  [i \in 1..16 |->
     LET r == (i - 1) % 4  c == (i - 1) \div 4 IN
     ((Mul14[b[At(r, c)]] ^^ Mul11[b[At((r + 1) % 4, c)]]) ^^ Mul13[b[At((r + 2) % 4, c)]])
        ^^ Mul9[b[At((r + 3) % 4, c)]]]

EncryptBlock(ks, b) ==
  LET round(x, r) == TLCEval(XorSeq(TLCEval(MixColumns(TLCEval(SubShift(x)))), ks[r + 1]))
      mid == FoldLeft(round, TLCEval(XorSeq(b, ks[1])), <<1, 2, 3, 4, 5, 6, 7, 8, 9>>)
  IN TLCEval(XorSeq(TLCEval(SubShift(mid)), ks[11]))

DecryptBlock(ks, b) ==
  LET round(x, r) == TLCEval(InvMixColumns(TLCEval(XorSeq(TLCEval(InvSubShift(x)), ks[r + 1]))))
      mid == FoldLeft(round, TLCEval(XorSeq(b, ks[11])), <<9, 8, 7, 6, 5, 4, 3, 2, 1>>)
  IN TLCEval(XorSeq(TLCEval(InvSubShift(mid)), ks[1]))

Block(s, i) == SubSeq(s, 16 * i - 15, 16 * i)
Blocks(s) == Len(s) \div 16

\* CBC; s is a whole number of blocks.
CbcEncrypt(key, iv, s) ==
  LET ks == TLCEval(RoundKeys(key))
      step(acc, i) == LET c == EncryptBlock(ks, TLCEval(XorSeq(Block(s, i), acc.prev)))
                      IN [prev |-> c, out |-> acc.out \o c]
  IN FoldLeft(step, [prev |-> iv, out |-> <<>>], [i \in 1..Blocks(s) |-> i]).out

CbcDecrypt(key, iv, s) ==
  LET ks == TLCEval(RoundKeys(key))
      plain(i) == TLCEval(XorSeq(DecryptBlock(ks, Block(s, i)), IF i = 1 THEN iv ELSE Block(s, i - 1)))
  IN FoldLeft(LAMBDA acc, i : acc \o plain(i), <<>>, [i \in 1..Blocks(s) |-> i])
=============================================================================
