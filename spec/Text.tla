--------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text fields: cut at the last NUL, inner NULs are spaces, surrounding    *)
(* white space removed; a character is its latin-1 code.                   *)
(***************************************************************************)
EXTENDS Bytes

LastIndexOf(s, x) == LET f(acc, i) == IF s[i] = x THEN i ELSE acc
                     IN FoldLeft(f, 0, [i \in 1..Len(s) |-> i])
Blank == {9, 10, 11, 12, 13, 32}
RECURSIVE LStrip(_)
LStrip(s) == IF s # <<>> /\ s[1] \in Blank THEN LStrip(Drop(s, 1)) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # <<>> /\ s[Len(s)] \in Blank THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s

PrettyText(s) ==
  LET k == LastIndexOf(s, 0)
      cut == IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1)
  IN RStrip(LStrip([i \in 1..Len(cut) |-> IF cut[i] = 0 THEN 32 ELSE cut[i]]))

\* Dotted decimal of four bytes.
IpText(s) == DecimalNat(s[1]) \o <<46>> \o DecimalNat(s[2]) \o <<46>>
             \o DecimalNat(s[3]) \o <<46>> \o DecimalNat(s[4])
=============================================================================
