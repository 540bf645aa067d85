----------------------------- MODULE DumpLayouts -----------------------------
(* Prints the record layouts, from which test records are generated. *)
EXTENDS Call, Json

Dump == << [t \in {ToString(x) : x \in DOMAIN Types} |->
              LET k == CHOOSE x \in DOMAIN Types : ToString(x) = t IN Types[k]] >>
ASSUME PrintT("LAYOUTS " \o ToJson(Dump[1]))
ASSUME PrintT("CALL " \o ToJson(CallLayout))
ASSUME \A t \in DOMAIN Types : MinLength(Types[t].layout) <= MaxLength(Types[t].layout)
VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================
