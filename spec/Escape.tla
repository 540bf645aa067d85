-------------------------------- MODULE Escape -------------------------------
(***************************************************************************)
(* Transparency layer of the ELGAS2 link: the end character 0x0D, its      *)
(* 8-bit twin 0x8D and the escape character 0x1B are replaced by two-byte  *)
(* sequences, so that 0x0D is on the wire only as the end of a telegram.   *)
(***************************************************************************)
EXTENDS Bytes

EndChar == 13      \* 0x0D
EscChar == 27      \* 0x1B
TwinChar == 141    \* 0x8D

EscByte(b) == CASE b = EndChar  -> <<EscChar, 14>>
                [] b = EscChar  -> <<EscChar, EscChar>>
                [] b = TwinChar -> <<EscChar, 15>>
                [] OTHER        -> <<b>>

EscapeBody(s) == FoldLeft(LAMBDA acc, b : acc \o EscByte(b), <<>>, s)

Escapable(s) == s # <<>> /\ s[Len(s)] = EndChar
Escape(s) == EscapeBody(SubSeq(s, 1, Len(s) - 1)) \o <<EndChar>>

(* The receiver is a two-state machine fed byte by byte: `esc` says that    *)
(* the previous byte was an escape character.  An escape character followed *)
(* by anything but 0E, 0F or 1B is kept as it is.                           *)
UnescInit == [esc |-> FALSE, out |-> <<>>]
UnescStep(m, b) ==
  IF ~m.esc
  THEN IF b = EscChar THEN [m EXCEPT !.esc = TRUE] ELSE [m EXCEPT !.out = Append(@, b)]
  ELSE [esc |-> FALSE,
        out |-> CASE b = 14      -> Append(m.out, EndChar)
                  [] b = 15      -> Append(m.out, TwinChar)
                  [] b = EscChar -> Append(m.out, EscChar)
                  [] OTHER       -> m.out \o <<EscChar, b>>]

UnescRun(s) == FoldLeft(UnescStep, UnescInit, s)
\* Only for telegrams, which end with the end character (no escape is open).
Unescape(s) == UnescRun(s).out

\* The property of the layer, for one telegram.
Transparent(s) ==
  LET w == Escape(s) IN
  /\ IndexOf(w, EndChar) = Len(w)
  /\ ~Contains(w, TwinChar)
  /\ Unescape(w) = s
  /\ ~UnescRun(w).esc
=============================================================================
