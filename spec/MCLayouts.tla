------------------------------ MODULE MCLayouts ------------------------------
(***************************************************************************)
(* Every byte of a record belongs to the fields that say so and to no      *)
(* other.  A state is a record body of some type and length, and one byte  *)
(* of it to be changed; whose byte that is follows from the widths alone.  *)
(***************************************************************************)
EXTENDS Call, FiniteSets
CONSTANT Masks

\* Type 0 stands for the call message.
All == {0} \cup DOMAIN Types
LayoutOf(ty) == IF ty = 0 THEN CallLayout ELSE Types[ty].layout
Decode(ty, b) == IF ty = 0 THEN DecodeCall(b) ELSE DecodeRecord(Types[ty].layout, b)

\* Where the fields stand: at is what comes before.
NoWidth == {"b", "m", "rows", "opt"}
Places(layout) ==
  FoldLeft(LAMBDA acc, fd : TLCEval(
             [s |-> Append(acc.s, fd @@ [at |-> acc.at]), at |-> IF fd.k \in NoWidth THEN acc.at ELSE acc.at + fd.w]),
           [s |-> <<>>, at |-> 0], layout).s
Of(places, kinds) == {i \in 1..Len(places) : places[i].k \in kinds}
Marks(places) ==
  [rows |-> {places[i].at : i \in Of(places, {"rows"})},
   ctl  |-> {places[i].at + 1 : i \in Of(places, {"c", "cx"})},
   bcd  |-> UNION {{places[i].at + j : j \in 1..places[i].w} : i \in Of(places, {"bcd"})},
   prot |-> {places[i].at + 1 : i \in {i \in 1..Len(places) : places[i].n = "protocol"}},
   tail |-> {i \in 1..Len(places) : \E o \in Of(places, {"opt"}) : i > o}]

\* A body without zeros, so that every byte of a text counts.
Base(m, len) == [i \in 1..len |-> IF i \in m.rows THEN 0
                                  ELSE IF i \in m.prot THEN 2
                                  ELSE IF i \in m.bcd THEN 17 * (1 + (i % 9))
                                  ELSE 35 + ((7 * i) % 31)]

VARIABLES ty, places, marks, min, max, base, whole, p, mask
vars == <<ty, places, marks, min, max, base, whole, p, mask>>
View == <<ty, Len(base), p, mask>>
Init == /\ ty \in All
        /\ places = TLCEval(Places(LayoutOf(ty)))
        /\ marks = TLCEval(Marks(places))
        /\ min = MinLength(LayoutOf(ty)) /\ max = MaxLength(LayoutOf(ty))
        /\ \E len \in {min, max} : base = TLCEval(Base(marks, len))
        /\ whole = TLCEval(Decode(ty, base))
        /\ p \in 1..Len(base)
        /\ mask \in IF p \in marks.rows \cup marks.prot THEN {0}
                    ELSE IF p \in marks.ctl THEN {2 ^ k : k \in 0..7}
                    ELSE IF p \in marks.bcd THEN {16} ELSE Masks
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* The attributes the byte p belongs to, as far as the bits of the mask go.
Owners ==
  {places[i].n : i \in {i \in 1..Len(places) : mask # 0 /\ LET g == places[i] IN
     \/ g.k \notin NoWidth \cup {"skip", "cx"} /\ g.at < p /\ p <= g.at + g.w
     \/ g.k = "b" /\ p \in marks.ctl /\ (mask & g.w) # 0
     \/ g.k = "m" /\ p \in marks.ctl /\ (mask & 48) # 0}}
Changed == [base EXCEPT ![p] = IF p \in marks.bcd THEN @ - 16 ELSE @ ^^ mask]
Names(f) == [i \in 1..Len(f) |-> f[i].n]
Own == LET g == TLCEval(Decode(ty, TLCEval(Changed))) IN
       /\ whole.v = "ok" /\ g.v = "ok" /\ Names(whole.f) = Names(g.f)
       /\ {whole.f[i].n : i \in {i \in 1..Len(g.f) : whole.f[i] # g.f[i]}} = Owners
\* Cut anywhere before its tail, or inside the tail, a record is refused.
CutShort == LET f == TLCEval(Decode(ty, SubSeq(base, 1, p - 1))) IN
            IF p - 1 = min THEN f.v = "ok" ELSE f.v = "bad"
\* With bytes left over it is not one that a device sends.
TooLong == ty # 0 /\ Len(base) = max /\ p = 1 => Decode(ty, base \o <<1>>).v = "free"
\* Without the tail its fields are None, with it none is.
TailIsWhole == p = 1 =>
  \A i \in 1..Len(whole.f) :
    (whole.f[i].t = "n") <=> (Len(base) < max /\ whole.f[i].n \in {places[j].n : j \in marks.tail})
=============================================================================
