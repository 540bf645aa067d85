-------------------------------- MODULE Secrets ------------------------------
(***************************************************************************)
(* The forms in which a secret can show up in a text.                      *)
(***************************************************************************)
EXTENDS Bytes

Up(s) == [i \in 1..Len(s) |-> IF s[i] \in 97..102 THEN s[i] - 32 ELSE s[i]]
Slash == 92
Hex2(b) == HexText(<<b>>)
\* One byte as Python shows it in a bytes literal.
Shown(b) == CASE b = 9  -> <<Slash, 116>>
              [] b = 10 -> <<Slash, 110>>
              [] b = 13 -> <<Slash, 114>>
              [] b = Slash -> <<Slash, Slash>>
              [] b \in 32..126 \ {Slash} -> <<b>>
              [] OTHER -> <<Slash, 120>> \o Hex2(b)
Escapes(s) == FlattenSeq([i \in 1..Len(s) |-> Shown(s[i])])
\* As in a text literal: printable latin-1 characters stay.
ShownText(b) == IF b \in 161..255 \ {173} THEN <<b>> ELSE Shown(b)
TextEscapes(s) == FlattenSeq([i \in 1..Len(s) |-> ShownText(s[i])])
\* As in JSON.
ShownJson(b) == CASE b = 8 -> <<Slash, 98>> [] b = 9 -> <<Slash, 116>> [] b = 10 -> <<Slash, 110>>
                  [] b = 12 -> <<Slash, 102>> [] b = 13 -> <<Slash, 114>> [] b = 34 -> <<Slash, 34>>
                  [] b = Slash -> <<Slash, Slash>>
                  [] b \in 32..127 \ {34, Slash} -> <<b>>
                  [] OTHER -> <<Slash, 117, 48, 48>> \o Hex2(b)
JsonEscapes(s) == FlattenSeq([i \in 1..Len(s) |-> ShownJson(s[i])])
\* Numbers in a list.
Listed(s) == FlattenSeq([i \in 1..Len(s) |-> (IF i = 1 THEN <<>> ELSE <<44, 32>>) \o DecimalNat(s[i])])
Parted(s, by) == FlattenSeq([i \in 1..Len(s) |-> (IF i = 1 THEN <<>> ELSE by) \o Hex2(s[i])])
Spaced(s) == Parted(s, <<32>>)
Coloned(s) == Parted(s, <<58>>)
Dashed(s) == Parted(s, <<45>>)

Needles(s) == IF s = <<>> THEN {}
              ELSE {s, HexText(s), Up(HexText(s)), Escapes(s), TextEscapes(s), JsonEscapes(s),
                    JsonEscapes(Escapes(s)), JsonEscapes(TextEscapes(s)), Listed(s), Spaced(s), Up(Spaced(s)),
                    Coloned(s), Up(Coloned(s)), Dashed(s), Up(Dashed(s))}
Shows(text, needles) == \E p \in needles : OccursIn(p, text)
=============================================================================
